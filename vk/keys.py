"""Key types: terms of KeySpace.tla, and the Rust declarations that realise them."""
import random

UNIT = {"t": "unit"}
BOOL = {"t": "bool", "rust": "bool"}
ONE = {"t": "one", "rust": "()"}


def opt(a):
    return {"t": "opt", "a": a, "rust": "Option<%s>" % a["rust"]}


# rust type -> sample key expressions (distinct keys)
DYN = {
    "char": ["'a'", "'\\u{10ffff}'", "'b'", "'\\0'"],
    "u8": ["0", "255", "7", "128"],
    "u32": ["0", "u32::MAX", "7", "1 << 16"],
    "u64": ["0", "u64::MAX", "7", "1 << 40"],
    "u128": ["0", "u128::MAX", "7", "1 << 90"],
    "usize": ["0", "usize::MAX", "7", "1 << 33"],
    "i8": ["0", "-128", "127", "-1"],
    "i32": ["0", "i32::MIN", "i32::MAX", "-1"],
    "i64": ["0", "i64::MIN", "i64::MAX", "-1"],
    "i128": ["0", "i128::MIN", "i128::MAX", "-1"],
    "isize": ["0", "isize::MIN", "isize::MAX", "-1"],
    "&'static str": ["st(\"\")", "st(\"a\")", "st(\"ab\")", "st(\"b\")"],
    "&'static [u8]": ["by(&[])", "by(&[0])", "by(&[0, 0])", "by(&[255])"],
}


def dyn_exprs(rust, n):
    """n distinct keys; the first ones are the extremes."""
    out = DYN[rust][:n]
    for i in range(n - len(out)):
        if rust == "char":
            out.append("'\\u{%x}'" % (0x4e00 + 257 * i))
        elif rust[0] == "&":
            out.append('%s("key number %d")' % ("st" if rust.endswith("str") else "bt", i))
        elif rust in ("u8", "i8"):
            c = [x for x in range(1, 127) if x != 7]
            out.append(str(c[(i * 37) % len(c)]))
        else:
            out.append(str(1 + i * 1000 if i % 2 else 1 + i + 8))
    assert len(set(out)) == n, (rust, n)
    return out


def dyn(rust, n=3):
    return {"t": "dyn", "n": n, "rust": rust}


# not in alphabetical order on purpose
NAMES = ["Zulu", "Alpha", "Mike", "Bravo", "Yankee", "Echo", "Golf", "Delta", "X9", "Hotel", "Kilo", "Foxtrot"]


def vname(i):
    return NAMES[i] if i < len(NAMES) else "V%d" % (997 * i % 1000 + 1000 * (i % 3)) + "n%d" % i


def units(n, name=None, bitset=False, discr=False):
    name = name or ("B%d" if bitset else "U%d") % n
    return {"t": "units", "n": n, "name": name, "rust": name, "bitset": bitset, "discr": discr, "decl": True}


def enum(name, f):
    return {"t": "enum", "f": f, "name": name, "rust": name, "decl": True}


def size(t):
    k = t["t"]
    if k in ("units", "dyn"):
        return t["n"]
    if k == "opt":
        return size(t["a"]) + 1
    if k == "enum":
        return sum(size(x) for x in t["f"])
    return 2 if k == "bool" else 1


def has_dyn(t):
    k = t["t"]
    return k == "dyn" or (k == "opt" and has_dyn(t["a"])) or (k == "enum" and any(has_dyn(x) for x in t["f"]))


def block(t):
    """The most keys that share a rank."""
    r = ranks(t)
    return max((r.count(x) for x in set(r)), default=0)


def ast(t):
    """The TLA+ term."""
    k = t["t"]
    if k == "units" and t["bitset"]:
        return {"t": k, "n": t["n"], "b": 1}
    if k in ("units", "dyn"):
        return {"t": k, "n": t["n"]}
    if k == "opt":
        return {"t": k, "a": ast(t["a"])}
    if k == "enum":
        return {"t": k, "f": [ast(x) for x in t["f"]]}
    return {"t": k}


def ranks(t):
    """As KeySpace.Ranks (used only to make plans, never to judge)."""
    k = t["t"]
    if k == "units":
        return list(range(1, t["n"] + 1))
    if k == "dyn":
        return [1] * t["n"]
    if k == "opt":
        r = ranks(t["a"])
        return r + [max(r, default=0) + 1]
    if k == "enum":
        out, off = [], 0
        for x in t["f"]:
            r = [v + off for v in ranks(x)]
            out += r
            off = max(r, default=off)
        return out
    return [1, 2] if k == "bool" else [1]


def key_exprs(t):
    k = t["t"]
    if k == "bool":
        return ["true", "false"]
    if k == "one":
        return ["()"]
    if k == "opt":
        return ["Some(%s)" % e for e in key_exprs(t["a"])] + ["None"]
    if k == "dyn":
        return dyn_exprs(t["rust"], t["n"])
    if k == "units":
        return ["%s::%s" % (t["name"], vname(i)) for i in range(t["n"])]
    out = []
    for i, x in enumerate(t["f"]):
        v = "%s::%s" % (t["name"], vname(i))
        out += [v] if x["t"] == "unit" else ["%s(%s)" % (v, e) for e in key_exprs(x)]
    return out


def raw_width(n):
    for w in (8, 16, 32, 64, 128):
        if n <= w:
            return w
    return None


def decl(t):
    bit = "#[key(bitset)] " if t.get("bitset") else ""
    vs = []
    if t["t"] == "units":
        d = list(range(t["n"]))
        random.Random(t["n"]).shuffle(d)
        for i in range(t["n"]):
            vs.append(vname(i) + (" = %d" % (d[i] * 3 - 20) if t["discr"] else ""))
    else:
        for i, x in enumerate(t["f"]):
            vs.append(vname(i) if x["t"] == "unit" else "%s(%s)" % (vname(i), x["rust"]))
    rep = "#[repr(i16)] " if t.get("discr") else ""
    der = "Clone, Copy, PartialEq, Debug, Key, serde::Serialize, serde::Deserialize"
    return "#[derive(%s)] %s%spub enum %s { %s }\n" % (der, bit, rep, t["name"], ", ".join(vs))


def closure(types):
    """All enum declarations needed, dependencies included."""
    seen, out = set(), []

    def go(t):
        if t["t"] == "opt":
            go(t["a"])
        elif t["t"] == "enum":
            for x in t["f"]:
                go(x)
        if t.get("decl") and t["name"] not in seen:
            seen.add(t["name"])
            out.append(t)

    for t in types:
        go(t)
    return out


def emit(types, path):
    """types: {name: term}.  Writes the Rust file with declarations and the registry."""
    s = "use fixed_map::Key;\n"
    s += "fn st(s: &str) -> &'static str { Box::leak(s.to_string().into_boxed_str()) }\n"
    s += "fn bt(s: &str) -> &'static [u8] { st(s).as_bytes() }\n"
    s += "fn by(s: &[u8]) -> &'static [u8] { Box::leak(s.to_vec().into_boxed_slice()) }\n"
    for t in closure(types.values()):
        s += decl(t)
    done = set()
    # one declaration of the sample keys serves all terms of a Rust type
    for name, t in sorted(types.items(), key=lambda x: -size(x[1])):
        if t["rust"] in done:
            continue
        done.add(t["rust"])
        raw = "u%d" % raw_width(t["n"]) if t.get("bitset") else "no"
        order = "yes" if t["t"] == "units" else "set" if t["t"] == "one" else "no"
        s += "crate::kt!(ty = %s, de = %s, ord = %s, raw = %s, val = %s, exact = %s, keys = [%s]);\n" % (
            t["rust"], "no" if has_dyn(t) else "yes", order, raw, t.get("val", "Val"), "yes" if t["t"] == "bool" else "no",
            ", ".join(key_exprs(t)))
    s += "pub fn registry() -> Vec<crate::Ty> { vec![\n"
    for name, t in types.items():
        s += "    crate::ty::<%s>(%s),\n" % (t["rust"], '"%s"' % name)
    s += "] }\n"
    open(path, "w").write(s)


def rand_type(rng, name, depth=2, dynamic=True, maxsize=24):
    """A random composite key type; inner enums are numbered after `name`."""
    cnt = [0]

    def leaf():
        c = rng.randrange(8)
        if c < 2:
            return BOOL
        if c == 2:
            return ONE
        if c == 3 and dynamic:
            return dyn(rng.choice([r for r in DYN if r[0] != '&']), rng.choice([2, 3]))
        return units(rng.choice([1, 2, 3]), "%sL%d" % (name, bump()), bitset=rng.random() < 0.4)

    def bump():
        cnt[0] += 1
        return cnt[0]

    def field(d):
        c = rng.randrange(10)
        if c < 3:
            return UNIT
        if c < 6 or d == 0:
            return leaf()
        if c < 8:
            return opt(field_payload(d - 1))
        return mk(d - 1, "%sN%d" % (name, bump()))

    def field_payload(d):
        x = field(d)
        return x if x["t"] != "unit" else BOOL

    def mk(d, nm):
        f = [field(d) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if all(x["t"] == "unit" for x in f):
            f.append(field_payload(d))
        return enum(nm, f)

    while True:
        t = mk(depth, name)
        if 2 <= size(t) <= maxsize:
            return t


# value types of the harness other than the usual one
KINDS = ["Plain", "Niche", "Heap", "Large", "Zero"]


def everything(name):
    """Every way to store a key, in one type."""
    return enum(name, [UNIT, BOOL, units(2, name + "u"), opt(BOOL), dyn("u8", 2), ONE, opt(dyn("i32", 2)), opt(units(2, name + "b", bitset=True)),
                       enum(name + "i", [UNIT, opt(ONE)])])


def kinds():
    """Key types whose maps hold other kinds of values."""
    c = {}
    for k in KINDS:
        for t in (units(3, "U3" + k), everything("E" + k)):
            t["val"] = k
            c[t["name"]] = t
    return c


def zero(t):
    return t.get("val") == "Zero"


def large():
    """Many keys: hash tables that grow, cursors beyond a byte."""
    c = {}
    for r, n in (("u32", 40), ("&'static str", 24), ("u8", 60), ("&'static [u8]", 18), ("i64", 130)):
        c["L_%s%d" % ("".join(ch for ch in r if ch.isalnum()).replace("static", ""), n)] = dyn(r, n)
    c["L_ochar"] = opt(dyn("char", 20))
    for t in (enum("LCD", [UNIT, dyn("u64", 30), BOOL, dyn("&'static str", 20)]), units(300, "L300"),
              enum("LCU", [UNIT] * 150 + [BOOL] + [UNIT] * 110 + [opt(ONE), UNIT]), enum("LCN", [units(130, "LCNa"), enum("LCNb", [UNIT] * 40 + [BOOL]), units(128, "LCNc", bitset=True)])):
        c[t["name"]] = t
    return c


def catalogue():
    c = {}

    def add(t, name=None):
        c[name or t["name"]] = t

    for n in (0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128):
        add(units(n))
        add(units(n, bitset=True))
    for n in (5, 15, 31, 63, 127):
        add(units(n, bitset=True))
    add(units(130))
    add(units(4, "D4", discr=True))
    add(units(9, "D9", discr=True))
    add(units(4, "BD4", bitset=True, discr=True))
    add(units(9, "BD9", bitset=True, discr=True))
    add(BOOL, "bool")
    add(ONE, "one")
    add(opt(BOOL), "obool")
    add(opt(ONE), "oone")
    add(opt(opt(BOOL)), "oobool")
    add(opt(units(3)), "oU3")
    add(opt(units(3, bitset=True)), "oB3")
    for r in DYN:
        add(dyn(r), "k_" + ("slice" if "[" in r else "".join(ch for ch in r if ch.isalnum()).replace("static", "")))
    add(opt(dyn("u32")), "ou32")
    add(opt(opt(dyn("char", 2))), "oochar")
    add(enum("CB", [BOOL]))
    add(enum("C1", [ONE]))
    add(enum("CUB", [UNIT, BOOL]))
    add(enum("CBU", [BOOL, UNIT]))
    add(enum("CUBU", [UNIT, BOOL, UNIT]))
    add(enum("CBB", [BOOL, BOOL]))
    add(enum("CUOU", [UNIT, opt(BOOL), UNIT]))
    add(enum("CO1", [opt(ONE), UNIT]))
    add(enum("CD", [dyn("u32")]))
    add(enum("CUDU", [UNIT, dyn("u32"), UNIT]))
    add(enum("CDB", [dyn("&'static str", 2), BOOL]))
    add(enum("CDD", [dyn("u8", 2), UNIT, dyn("&'static [u8]", 2)]))
    add(enum("CE", [UNIT, units(0), UNIT]))
    add(enum("CN", [units(2), UNIT, enum("CNi", [UNIT, BOOL]), opt(units(2, bitset=True))]))
    add(enum("CX", [UNIT, opt(dyn("i32", 2)), BOOL, ONE]))
    add(enum("CW", [opt(enum("CWi", [BOOL, UNIT, dyn("char", 2)])), UNIT, units(3)]))
    add(enum("CBN", [units(9, bitset=True), UNIT, units(3, bitset=True)]))
    add(enum("CDEEP", [enum("CDa", [enum("CDb", [opt(opt(BOOL)), UNIT]), ONE]), UNIT, opt(enum("CDc", [UNIT, ONE]))]))
    return c
