"""C16: which declarations the derive accepts."""
import json
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import gen, keys
from .core import REPO, VERIF, ToolError, cargo_env
from .props import CHECKS

GOOD = {
    "unit": [""],
    "discr": [""],
    "bool": ["bool"],
    "one": ["()"],
    "opt": ["Option<bool>", "Option<Option<()>>", "Option<super::Two>", "Option<Option<super::Pay>>", "Option<u8>", "Option<super::Bit>"],
    "dyn": list(keys.DYN),
    "units": ["super::Two", "super::Bit", "super::Nine", "super::Zero"],
    "enum": ["super::Pay", "super::Deep"],
}
BAD = ["f32", "f64", "super::NoKey", "super::NoKeyEnum", "(bool, bool)", "[bool; 2]", "(bool,)", "fn()", "&'static bool", "*const u8", "[u8; 0]", "super::NoKeyGen<bool>",
       "&'static &'static str", "core::cmp::Ordering", "core::num::NonZeroU8"]
PRELUDE = """#![allow(dead_code, unused, non_camel_case_types, non_snake_case)]
use fixed_map::{Key, Map, Set};
#[derive(Clone, Copy, Key)] pub enum Zero {}
#[derive(Clone, Copy, Key)] pub enum Two { A, B }
#[derive(Clone, Copy, Key)] #[key(bitset)] pub enum Bit { A, B, C }
#[derive(Clone, Copy, Key)] #[key(bitset)] pub enum Nine { A, B, C, D, E, F, G, H, I }
#[derive(Clone, Copy, Key)] pub enum Pay { A(bool), B, C(Two) }
#[derive(Clone, Copy, Key)] pub enum Deep { A(Pay), B(Option<Pay>), C(Bit) }
#[derive(Clone, Copy)] pub struct NoKey;
#[derive(Clone, Copy)] pub enum NoKeyEnum { A, B }
#[derive(Clone, Copy)] pub struct NoKeyGen<T>(T);
pub fn probe<K: Key>(k: K) {
    let mut m: Map<K, u8> = Map::new();
    m.insert(k, 1);
    m.entry(k).or_insert(2);
    m.retain(|_, _| true);
    for (_, _) in &m {}
    for (_, _) in m.into_iter() {}
    let mut s: Set<K> = Set::new();
    s.insert(k);
    s.retain(|_| true);
    for _ in s.iter() {}
}
"""
# names a declaration may have without any clash (they are ordinary identifiers)
RAW = {"as value": '#[key = "bitset"]', "as literal": '#[key("bitset")]', "good, bad": "#[key(bitset)]\n#[key(foo)]", "bad, good": "#[key(foo)]\n#[key(bitset)]",
       "number": "#[key(8)]"}
NAMES = ["E", "Option", "Some", "None", "Clone", "Copy", "Iterator", "IntoIterator", "DoubleEndedIterator", "Default", "PartialEq", "Eq", "Result", "Ok", "Map", "Set", "Key",
         "Entry", "Box", "String", "Vec", "Iter", "Keys", "Values", "IntoIter", "Drop", "Send", "Sized", "From", "Fn", "Hash", "Ord", "PartialOrd", "Ordering", "Debug",
         "Storage", "MapStorage", "SetStorage", "lower", "r#type", "r#fn", "É", "A1", "__E", "V", "F", "VacantEntry", "OccupiedEntry", "SimpleVacantEntry",
         "SimpleOccupiedEntry", "__MapStorage", "__SetStorage"]
VARIANTS = [["Some", "None"], ["Ok", "Err"], ["r#type", "r#match"], ["lower", "UPPER"], ["Self_", "Iter"], ["Option", "Clone"], ["V", "K"], ["f0", "f1"], ["e0", "p0"],
            ["_A", "__"], ["É", "ß"], ["Key", "Map"], ["Occupied", "Vacant"], ["true_", "data"], ["this", "key"], ["value", "index"]]
# the same shapes written in other places and in other ways: (tag, program); E must be a key
D = "#[derive(Clone, Copy, fixed_map::Key)]"
FORMS = [
    ("field attributes", D + " enum E { A(#[allow(unused)] bool), B }"),
    ("field attributes", D + " enum E { A(#[doc = \"x\"] Option<bool>), B(#[allow(dead_code)] #[cfg(all())] super::Bit), C(#[deny(unused)] u8) }"),
    ("field doc", D + " enum E { A(/** the payload */ super::Pay) }"),
    ("field visibility", D + " enum E { A(::core::primitive::bool), B(core::primitive::u32) }"),
    ("qualified", D + " enum E { A(core::option::Option<bool>), B(::std::option::Option<::core::option::Option<()>>), C(crate::Bit), D(super::Two) }"),
    ("parenthesised", D + " enum E { A((bool)), B(((Option<(bool)>))), C((())) }"),
    ("trailing comma", D + " enum E { A(bool,), B(Option<bool,>,), C, }"),
    ("alias", "type X = Option<bool>; type Y = bool; " + D + " enum E { A(X), B(Y), C(Option<Y>), D(bool) }"),
    ("associated type", "pub trait T { type O; } impl T for u8 { type O = bool; } impl T for u16 { type O = Option<super::Two>; } " + D + " enum E { A(<u8 as T>::O), B(<u16 as T>::O), C }"),
    ("associated type twice", "pub trait T { type O; } impl T for u8 { type O = bool; } " + D + " enum E { A(<u8 as T>::O), B(bool) }"),
    ("type macro", "macro_rules! ty { () => { bool }; ($t:ty) => { Option<$t> } } " + D + " enum E { A(ty!()), B(ty!(super::Two)), C(ty!(ty!())) }"),
    ("from a macro, type", "macro_rules! mk { ($n:ident, $t:ty, $v:ident) => { " + D + " enum $n { $v($t), Y, Z(Option<$t>) } } } mk!(E, bool, X);"),
    ("from a macro, qualified type", "macro_rules! mk { ($n:ident, $t:ty) => { " + D + " enum $n { A($t), Y, Z(Option<$t>) } } } mk!(E, Option<super::Pay>);"),
    ("from a macro, path", "macro_rules! mk { ($n:ident, $t:path) => { " + D + " enum $n { A($t), Y } } } mk!(E, super::Two);"),
    ("from a macro, tokens", "macro_rules! mk { ($n:ident, $($t:tt)*) => { " + D + " enum $n { A($($t)*), Y } } } mk!(E, Option<Option<bool>>);"),
    ("from a macro, variants", "macro_rules! mk { ($n:ident { $($v:ident $(= $d:literal)?),* }) => { " + D + " enum $n { $($v $(= $d)?),* } } } mk!(E { P = 1, Q, R = 7 });"),
    ("from a macro, bitset", "macro_rules! mk { ($n:ident { $($v:ident $(= $d:expr)?),* }) => { " + D + " #[key(bitset)] enum $n { $($v $(= $d)?),* } } } mk!(E { P = 1, Q, R = 3 + 4 });"),
    ("from a macro, whole", "macro_rules! id { ($($i:item)*) => { $($i)* } } id! { " + D + " pub(crate) enum E { A(bool), B } }"),
    ("from a macro, attributes", "macro_rules! mk { ($(#[$m:meta])* $v:vis enum $n:ident { $($w:ident),* }) => { $(#[$m])* $v enum $n { $($w),* } } } mk!(#[derive(Clone, Copy, fixed_map::Key)] #[key(bitset)] pub enum E { A, B });"),
    ("from a macro, fresh names", "macro_rules! mk { ($n:ident) => { " + D + " enum $n { A(bool), B } } } mk!(E);"),
    ("no variant left", D + " enum E { #[cfg(any())] A }"),
    ("variants left out", D + " enum E { A, #[cfg(any())] B(f32), #[cfg(all())] C, #[cfg(not(all()))] D { a: u8 }, F(bool) }"),
    ("variants left out, bitset", D + " #[key(bitset)] enum E { A, #[cfg(any())] B(f32), #[cfg(all())] C, #[cfg(not(all()))] D { a: u8 }, F }"),
    ("variant attributes", D + " enum E { #[doc(hidden)] A, #[allow(unused)] B(bool), #[deprecated] C, #[cfg_attr(all(), allow(unused))] D }"),
    ("attribute by condition", D + " #[cfg_attr(all(), key(bitset))] enum E { A, B }"),
    ("attribute by condition, off", D + " #[cfg_attr(any(), key(wrong))] enum E { A, B(bool) }"),
    ("attribute first", "#[allow(unused)] " + D + " #[key(bitset)] #[allow(dead_code)] enum E { A, B }"),
    ("attribute, comma", D + " #[key(bitset,)] enum E { A, B }"),
    ("where", D + " enum E where u8: Copy { A(bool), B }"),
    ("where, bitset", D + " #[key(bitset)] enum E where u8: Copy, u16: Clone { A, B }"),
    ("repr", D + " #[repr(u8)] enum E { A = 4, B, C = 2 }"),
    ("repr", D + " #[repr(i8)] enum E { A = -4, B, C = -128 }"),
    ("repr", D + " #[repr(C)] enum E { A(bool), B }"),
    ("repr, bitset", D + " #[key(bitset)] #[repr(u64)] enum E { A = u64::MAX, B = 0, C = 1 << 40 }"),
    ("discriminants", "const X: isize = 7; " + D + " enum E { A = X, B = X + 1, C = -3, D = { 1 + 1 }, F = u8::MAX as isize }"),
    ("discriminants, bitset", "const X: isize = 7; " + D + " #[key(bitset)] enum E { A = X, B = X + 1, C = -3, D = { 1 + 1 }, F = u8::MAX as isize }"),
    ("non exhaustive", D + " #[non_exhaustive] pub enum E { A(bool), B }"),
    ("non exhaustive", D + " #[key(bitset)] #[non_exhaustive] pub enum E { A, #[non_exhaustive] B }"),
    ("other derives", "#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default, fixed_map::Key)] enum E { #[default] A, B(bool), C }"),
    ("other derives", "#[derive(fixed_map::Key, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)] #[key(bitset)] enum E { A, #[default] B, C }"),
    ("own implementations", "#[derive(fixed_map::Key)] enum E { A(bool), B } impl Clone for E { fn clone(&self) -> Self { *self } } impl Copy for E {}"),
    ("own methods", D + " enum E { A(bool), B } impl E { pub fn new() -> Self { E::B } pub fn len(&self) -> bool { true } pub fn insert(&mut self) {} pub fn empty() {} pub fn iter(&self) {} pub const A: u8 = 1; }"),
    ("own traits", D + " enum E { A(bool), B } pub trait MapStorage { fn len(&self) -> u8 { 1 } fn empty() -> u8 { 2 } fn clone(&self) -> u8 { 3 } fn insert(&self, _: u8) {} } impl<T: ?Sized> MapStorage for T {}"),
    ("own modules", "pub mod core { } pub mod std { } pub mod option { } " + D + " enum E { A(bool), B(Option<bool>), C }"),
    ("own modules, bitset", "pub mod core { } pub mod std { } " + D + " #[key(bitset)] enum E { A, B }"),
    ("own macros", "macro_rules! matches { ($($t:tt)*) => { compile_error!() } } macro_rules! panic { ($($t:tt)*) => { compile_error!() } } macro_rules! unreachable { ($($t:tt)*) => { compile_error!() } } " + D + " enum E { A(bool), B(Option<bool>) }"),
    ("own constants", "pub const v: u8 = 1; pub const value: u8 = 1; pub const key: u8 = 1; pub const this: u8 = 1; pub const f: u8 = 1; pub const data: u8 = 2; " + "pub mod m { #[derive(Clone, Copy, fixed_map::Key)] pub enum E { A(bool), B, C(Option<bool>) } } pub use m::E;"),
    ("own types", "pub mod m { pub struct K; pub struct T; pub struct S; pub struct Item; pub struct Output; #[derive(Clone, Copy, fixed_map::Key)] pub enum E { A(bool), B, C(Option<bool>) } } pub use m::E;"),
    ("own bool", "#[derive(Clone, Copy, fixed_map::Key)] pub enum bool { A, B } #[derive(Clone, Copy, fixed_map::Key)] pub enum usize { A(bool), B } #[derive(Clone, Copy, fixed_map::Key)] pub enum E { A(bool), B, C(Option<usize>) }"),
    ("own usize, bitset", "#[derive(Clone, Copy, fixed_map::Key)] #[key(bitset)] pub enum u8 { A, B } #[derive(Clone, Copy, fixed_map::Key)] #[key(bitset)] pub enum bool { X, Y } #[derive(Clone, Copy, fixed_map::Key)] #[key(bitset)] pub enum E { A, B, C }"),
    ("two in a module", D + " enum E { A(P), B } " + D + " enum P { A(Q), B } " + D + " #[key(bitset)] enum Q { A, B }"),
    ("renamed derive", "use fixed_map::Key as Other; #[derive(Clone, Copy, Other)] enum E { A(bool), B }"),
    ("names from outside", "use super::*; #[derive(Clone, Copy, Key)] enum E { A(Bit), B(Pay), C(Option<Deep>) }"),
    ("in a function", "fn f() { " + D + " enum L { A(bool), B } let mut m: fixed_map::Map<L, u8> = fixed_map::Map::new(); m.insert(L::B, 1); super::probe(L::B) } " + D + " enum E { A }"),
    ("in a function, bitset", "fn f() { " + D + " #[key(bitset)] enum L { A, B } let mut m: fixed_map::Set<L> = fixed_map::Set::new(); m.insert(L::B); super::probe(L::B) } " + D + " enum E { A }"),
    ("in a constant", "const _: () = { " + D + " enum L { A(bool), B } fn f(l: L) { super::probe(l) } }; " + D + " enum E { A }"),
    ("in a method", "struct S<T>(T); impl<T> S<T> { fn f(&self) { " + D + " enum L { A(bool), B } super::probe(L::B) } } " + D + " enum E { A }"),
    ("self", D + " enum E { A(bool), B } impl E { fn f(self) { super::probe::<Self>(self) } }"),
    ("raw names", D + " enum r#match { r#fn(bool), r#loop } use r#match as E;"),
    ("raw names, bitset", D + " #[key(bitset)] enum r#match { r#fn, r#loop } use r#match as E;"),
    ("references", D + " enum E { A(&'static str), B(&'static [u8]), C(Option<&'static str>) }"),
    ("payload named like the enum", "pub mod m { #[derive(Clone, Copy, fixed_map::Key)] pub enum E { A, B } } " + D + " enum E { E(m::E), M(Option<m::E>) }"),
]
VIS = ["pub ", "", "pub(crate) ", "pub(super) ", "pub(in crate) "]


def item(d, rng, name="E", vis="pub ", names=None, vouch=True):
    """The declaration as Rust source, and the name of the type."""
    attr = "" if d["attr"] == "none" else RAW[d["attr"]] + "\n" if d["attr"] in RAW else "#[key(%s)]\n" % d["attr"]
    head = "#[derive(Clone, Copy, fixed_map::Key)]\n"
    if rng.random() < 0.5:
        head = "/// docs\n" + head
    if rng.random() < 0.3:
        attr += "#[allow(unused)]\n"
    it = d["item"]
    if it.startswith("struct"):
        # nothing else a generated storage might want is missing
        head = head.replace("Clone, Copy,", "Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash,")
    if it != "enum":
        body = {"struct unit": "struct %s;", "struct tuple": "struct %s(bool);", "struct named": "struct %s { a: bool }", "union": "union %s { a: bool, b: u8 }"}[it]
        return head + attr + vis + body % name
    vs = []
    shapes = list(d["vars"]) + ["unit"] * d["more"]
    for i, s in enumerate(shapes):
        v = names[i] if names and i < len(names) else keys.vname(i)
        doc = "/// a variant\n" if rng.random() < 0.1 else ""
        if s == "unit":
            f = ""
        elif s == "discr":
            f = " = %d" % (1000 - 7 * i)
        elif s == "named":
            f = rng.choice([" { a: bool }", " { a: bool, b: bool }"])
        elif s == "two":
            f = rng.choice(["(bool, bool)", "((), bool)", "(super::Two, u8)"])
        elif s == "three":
            f = "(bool, (), u8)"
        elif s == "bad":
            f = "(%s)" % rng.choice(BAD)
        elif s == "optbad":
            f = "(Option<%s>)" % rng.choice(BAD)
        else:
            f = "(%s)" % rng.choice(GOOD[s])
        vs.append(doc + v + f)
    return head + attr + vis + "enum %s { %s }" % (name, ", ".join(vs))


class Compiler:
    def __init__(self, c, features=None):
        """features: None for the default ones, or a list."""
        self.c = c
        self.dir = os.path.join(c.dir, "derive" if features is None else "derive-" + ("-".join(features) or "none"))
        with_ = "" if features is None else ", default-features = false, features = %s" % json.dumps(features)
        os.makedirs(self.dir + "/src", exist_ok=True)
        with open(self.dir + "/Cargo.toml", "w") as f:
            f.write('[package]\nname = "probe"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[dependencies]\nfixed-map = { path = "%s"%s }\n%s[workspace]\n' % (REPO, with_, "" if features is None else 'serde = "1"\n'))
        if features is not None:
            shutil.copy2(os.path.join(VERIF, "harness", "Cargo.lock"), self.dir + "/Cargo.lock")
        with open(self.dir + "/src/lib.rs", "w") as f:
            f.write("pub use fixed_map::Key;\n")
        lock = os.path.join(os.path.dirname(c.dir), "..", "harness", "Cargo.lock")
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--message-format=json", "--manifest-path", self.dir + "/Cargo.toml"], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, env=cargo_env(CARGO_TARGET_DIR=self.dir + "/target"))
        if p.returncode:
            raise ToolError("fixed-map does not build:\n" + p.stderr[-2000:])
        self.rlib = self.serde = None
        for l in p.stdout.splitlines():
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] in ("fixed-map", "fixed_map"):
                self.rlib = [x for x in m["filenames"] if x.endswith(".rlib")][0]
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "serde":
                self.serde = [x for x in m["filenames"] if x.endswith(".rlib")][0]
        if not self.rlib:
            raise ToolError("no rlib for fixed_map")

    def rustc(self, path):
        """Modules (by number) with errors in the crate at `path`."""
        p = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "batch", "--emit=metadata", "-o", path + ".rmeta", "--error-format=json",
                            "--cap-lints", "allow", "-L", "dependency=" + self.dir + "/target/debug/deps", "--extern", "fixed_map=" + self.rlib, *(["--extern", "serde=" + self.serde] if self.serde else []), path],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=cargo_env(), timeout=600)
        msgs = []
        for l in p.stderr.splitlines():
            if l.startswith("{"):
                m = json.loads(l)
                if m.get("level") in ("error", "error: internal compiler error"):
                    msgs.append(m)
        return p.returncode, msgs, p.stderr

    def batch(self, progs, tag, prelude=PRELUDE):
        """progs: list of sources.  Returns the set of indices that do not compile, with their first message."""
        bad = {}
        live = list(range(len(progs)))
        path = os.path.join(self.dir, "batch-%s.rs" % tag)
        for _ in range(12):
            src, where = prelude, []
            line = src.count("\n") + 1
            for i in live:
                text = "pub mod p%d {\n%s\n}\n" % (i, progs[i])
                n = text.count("\n")
                where.append((line, line + n - 1, i))
                src += text
                line += n
            with open(path, "w") as f:
                f.write(src)
            rc, msgs, err = self.rustc(path)
            if rc == 0:
                return bad
            hit = {}
            for m in msgs:
                ls = []

                def walk(s):
                    if s["file_name"] == path:
                        ls.append(s["line_start"])
                    if s.get("expansion"):
                        walk(s["expansion"]["span"])

                for s in m["spans"]:
                    if s["is_primary"]:
                        walk(s)
                if not ls:
                    for s in m["spans"]:
                        walk(s)
                for x in ls:
                    for a, b, i in where:
                        if a <= x <= b:
                            hit.setdefault(i, m["message"])
            if not hit:
                mine = [m for m in msgs if any(s["file_name"] == path for s in m["spans"])]
                if mine:
                    # the few plain declarations and uses at the top of every batch
                    self.c.violation("plain declarations and uses of them are refused: " + mine[0]["message"][:200],
                                     {"property": self.c.pid, "program": prelude, "compiler": [m.get("rendered") or m["message"] for m in mine[:5]]}, "prelude")
                raise ToolError("errors outside the declarations:\n" + err[-2000:])
            bad.update(hit)
            live = [i for i in live if i not in hit]
        raise ToolError("the batch never settled")


def program(d, rng, **kw):
    name = kw.get("name", "E")
    src = item(d, rng, **kw)
    if d["item"] == "enum":
        src += "\nfn _p(k: %s) { super::probe::<%s>(k) }" % (name, name)
    else:
        src += "\nfn _p<T>() where %s: fixed_map::Key {}" % name
    return src


def c16(c):
    rng = c.rng
    odd = '"foo", "bitset, foo", "foo, bitset", "bitset = true", "bits", "bitset(8)", "bitset = 8", "as value", "as literal", "good, bad", "bad, good", "number"'
    out = c.model("Derive", 'SPECIFICATION Spec\nCONSTANTS MaxVar=%d MaxVarOdd=1\n Attrs={"none", "bitset", %s}\n Items={"enum", "struct unit", "struct tuple", "struct named", "union"}\n'
                  ' Counts={0, 1, 2, 7, 8, 9, 16, 17, 32, 33, 64, 65, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300}\n'
                  'INVARIANTS LawVerdict LawFault LawMix LawGrow LawBits\nCONSTRAINT EmitT\nCHECK_DEADLOCK FALSE\n' % (3, odd),
                  "every declaration of at most 3 variants, every attribute, kind of item and width", workers=1)
    decls = gen.printed(out)
    todo = []  # (source, want, description)
    rest = []
    for d in decls:
        if d["want"] == "open":
            continue
        if len(d["vars"]) <= 2 or d["more"]:
            todo.append((program(d, rng, vis=rng.choice(VIS)), d["want"], d, None))
        else:
            rest.append(d)
    rng.shuffle(rest)
    for d in rest[: None if c.thorough else 700]:
        todo.append((program(d, rng, vis=rng.choice(VIS)), d["want"], d, None))
    # longer ones, judged by the same rule
    acc = [d for d in decls if d["want"] == "accept" and d["attr"] == "none" and not d["more"] and "discr" not in d["vars"]]
    for _ in range(600 if c.thorough else 150):
        d = {"item": "enum", "attr": "none", "more": 0, "vars": sum((rng.choice(acc)["vars"] for _ in range(rng.randint(2, 5))), []), "want": "accept"}
        if rng.random() < 0.5:
            d["vars"].insert(rng.randint(0, len(d["vars"])), rng.choice(["named", "two", "three", "bad", "optbad"]))
            d["want"] = "reject"
        todo.append((program(d, rng, vis=rng.choice(VIS)), d["want"], d, None))
    # every supported and unsupported payload, alone and in company
    for s, tys in GOOD.items():
        for ty in tys:
            if ty:
                for form in ("A(%s)", "A(%s), B", "B, A(Option<%s>), C(bool)"):
                    todo.append(("#[derive(Clone, Copy, fixed_map::Key)] enum E { %s }\nfn _p(k: E) { super::probe(k) }" % form % ty, "accept", {"payload": ty}, None))
    for ty in BAD:
        for form in ("A(%s)", "A(%s), B", "B, A(Option<%s>), C(bool)"):
            todo.append(("#[derive(Clone, Copy, fixed_map::Key)] enum E { %s }\nfn _p(k: E) { super::probe(k) }" % form % ty, "reject", {"payload": ty}, None))
    # the place and the way of writing do not matter
    for tag, src in FORMS:
        todo.append((src + "\nfn _p(k: E) { super::probe::<E>(k) }", "accept", {"form": tag}, "form-" + tag.replace(", ", " ").replace(" ", "-")))
    # names of the type and of its variants must not matter
    for nm in NAMES:
        for d in ({"vars": ["unit", "unit"], "attr": "none"}, {"vars": ["unit", "unit"], "attr": "bitset"}, {"vars": ["unit", "bool", "opt", "one"], "attr": "none"}):
            d = dict(d, item="enum", more=0)
            src = item(d, rng, name=nm).replace("Option<", "::core::option::Option<").replace("derive(Clone, Copy, fixed_map::Key)", "derive(::core::clone::Clone, ::core::marker::Copy, fixed_map::Key)")
            todo.append((src + "\nfn _p(k: %s) { super::probe::<%s>(k) }" % (nm, nm), "accept", {"name": nm, **d}, "name-" + nm))
    for vn in VARIANTS:
        for d in ({"vars": ["unit", "unit"], "attr": "none"}, {"vars": ["unit", "unit"], "attr": "bitset"}, {"vars": ["unit", "bool"], "attr": "none"}, {"vars": ["bool", "unit"], "attr": "none"}):
            d = dict(d, item="enum", more=0)
            # (lower-case names in scope unqualified clash with any local binding, also in plain Rust)
            for scope in ("", "\npub use self::E::*;") if all(x[0].isupper() for x in vn) else ("",):
                todo.append((item(d, rng, names=vn) + "\nfn _p(k: E) { super::probe::<E>(k) }" + scope, "accept", {"variants": vn, **d}, None))
    c.log("%d declarations" % len(todo))
    comp = Compiler(c)
    parts = [list(range(j, len(todo), 8)) for j in range(8)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: comp.batch([todo[i][0] for i in parts[j]], str(j)), range(8)))
    bad = {}
    for j, r in enumerate(res):
        for k, msg in r.items():
            bad[parts[j][k]] = msg
    c.cov["traces_validated_against_impl"] += len(todo)
    c.cov["declarations"] = {"accept": sum(1 for t in todo if t[1] == "accept"), "reject": sum(1 for t in todo if t[1] == "reject"), "rejected": len(bad)}
    wrong = [i for i in range(len(todo)) if (i in bad) != (todo[i][1] == "reject")]
    for i in wrong:
        src, want, d, tag = todo[i]
        # once more, alone
        alone = comp.batch([src], "one")
        if bool(alone) == (want == "reject"):
            continue
        rep = {"property": "C16", "declaration": src, "wanted": want, "described_as": d, "compiler": alone.get(0, "compiles without error")}
        if tag and tag in c.known:
            c.finding(tag, rep)
        else:
            c.violation("declaration must be %sed but was %s: %s" % (want, "rejected" if alone else "accepted", src[:300]), rep, "derive")
    c.log("all verdicts as specified: %s" % json.dumps(c.cov["declarations"]))
    for i in rng.sample(range(len(todo)), 3):
        c.cov["samples"].append({"declaration": todo[i][0], "want": todo[i][1]})
    # and what was accepted means what the specification says
    types = {}
    term = {"unit": lambda i: keys.UNIT, "bool": lambda i: keys.BOOL, "one": lambda i: keys.ONE, "opt": lambda i: keys.opt(rng.choice([keys.BOOL, keys.opt(keys.ONE), keys.units(2)])),
            "dyn": lambda i: keys.dyn(rng.choice([k for k in keys.DYN if k[0] != "&"]), 2), "units": lambda i: keys.units(3, bitset=rng.random() < 0.5),
            "enum": lambda i: keys.enum("X%d" % i, [keys.UNIT, keys.BOOL, keys.units(2)])}
    pay = [d for d in acc if any(s != "unit" for s in d["vars"])]
    for i in range(60 if c.thorough else 24):
        d = rng.choice(pay)
        if i % 3 == 2:
            d = {"vars": d["vars"] + rng.choice(pay)["vars"]}
        t = keys.enum("A%d" % i, [term[s](i * 10 + j) for j, s in enumerate(d["vars"])])
        if keys.size(t) <= 30:
            types[t["name"]] = t
    for n in (1, 2, 5, 127, 128):
        for b in (False, True):
            t = keys.units(n, "W%d%s" % (n, "b" if b else ""), bitset=b, discr=n == 5)
            types[t["name"]] = t
    types["W300"] = keys.units(300, "W300")
    c.build(types, ["m_core", "m_iter", "s_core", "s_iter"])
    from .props import random_core
    ms, ss = [], []
    for name, t in types.items():
        n = keys.size(t)
        mo = random_core(rng, n, 60)
        so = [["new", 1]]
        for k in rng.sample(range(1, n + 1), n):
            so.append(["insert", 1, k])
            if n < 40 or rng.random() < 0.05:
                so.append(["snap", 1])
        so += [["ord", 1], ["len", 1]]
        for k in rng.sample(range(1, n + 1), n):
            so.append(["remove", 1, k])
            if n < 40 or rng.random() < 0.05:
                so.append(["snap", 1])
        so += [["empty", 1]]
        mo += [["new", 1]] + [["insert", 1, k, k] for k in rng.sample(range(1, n + 1), n)] + [["ord", 1], ["len", 1], ["views", 1]]
        ms.append({"ty": name, "cont": "map", "ops": mo})
        ss.append({"ty": name, "cont": "set", "ops": so})
    c.conform(ms, "TraceMap", "accepted")
    c.conform(ss, "TraceSet", "setaccepted")


CHECKS["C16"] = c16
