"""One function per property: what is explored, generated and validated."""
import json
import os

from . import gen, keys
from .core import Check, ToolError, Violation, JOBS


def sz(t):
    return keys.size(t)


def map_graph(c, nk, nv):
    cfg = ("SPECIFICATION Spec\nCONSTANTS NK=%d NV=%d MaxHist=0 Emit=TRUE\nVIEW View\nACTION_CONSTRAINT EmitT\n"
           "CHECK_DEADLOCK FALSE\n" % (nk, nv))
    out = c.model("MapModel", cfg, "labelled transitions of the core map machine, %d keys, %d values" % (nk, nv), workers=1)
    return gen.graph(gen.printed(out))


def storage(c, parts, nv, hi, deep, dhi, what):
    """The design of the storage (StorageTree) against the flat machines: all key types of depth 1 with at most hi
    keys, and `deep` deeper ones with at most dhi."""
    terms = []
    for i in range(10000):
        if len(terms) >= deep:
            break
        a = keys.ast(keys.rand_type(c.rng, "Deep", depth=c.rng.choice([2, 3]), maxsize=dhi))
        if a not in terms:
            terms.append(a)
    path = os.path.join(c.dir, "terms.json")
    json.dump(terms, open(path, "w"))
    c.model("StorageTree", "SPECIFICATION Spec\nCONSTANTS NV=%d Depth=1 Lo=0 Hi=%d Parts={%s}\nINVARIANTS LawPaths LawLen LawDry\n"
            "PROPERTIES MapStep SetStep\nVIEW View\nCHECK_DEADLOCK FALSE\n" % (nv, hi, ", ".join('"%s"' % p for p in parts)),
            "storage trees: %s over all small key types and %d deeper ones" % (what, len(terms)), env={"TERMS": path})


def core_op(op, pick, val):
    """An abstract operation as a plan operation on slot 1."""
    if op[0] == "clear":
        return ["clear", 1]
    o = [op[0], 1, pick[op[1] - 1]]
    if len(op) > 2:
        o.append(val(op[2]))
    return o


def c01(c):
    hist = 5 if c.thorough else 4
    c.model("MapModel", "SPECIFICATION Spec\nCONSTANTS NK=2 NV=2 MaxHist=%d Emit=FALSE\nINVARIANTS LawRecent LawTruth MapTypeOK\n"
            "PROPERTIES LawFrame LawClear\nVIEW View\nCHECK_DEADLOCK FALSE\n" % hist,
            "laws over all histories of at most %d operations" % hist)
    g = {1: map_graph(c, 1, 2), 2: map_graph(c, 2, 2), 3: map_graph(c, 3, 2)}
    storage(c, ["core"], 2, 4, 120 if c.thorough else 40, 6 if c.thorough else 5, "every operation on every content is the one of the flat map")
    types = all_types(c, 4, 12)
    c.build(types, ["m_core"])
    ses = []
    for name, t in types.items():
        n = sz(t)
        if n == 0:
            ses.append({"ty": name, "cont": "map", "ops": [["new", 1], ["snap", 1], ["len", 1], ["empty", 1], ["clear", 1], ["snap", 1]]})
            continue
        big = n > 33
        m = min(n, 2 if big else 3)
        for pick in gen.picks(c.rng, n, m, 4 if c.thorough else 2):
            walk = gen.covering_walk(g[m], [0] * m, c.rng)
            vals = [c.rng.randint(1, 1 << 20) for _ in range(2)]
            ops = [["new", 1, c.rng.choice(["new", "default"])]]
            for i, op in enumerate(walk):
                ops.append(core_op(op, pick, lambda v: vals[v - 1]))
                if not big or i % 12 == 0:
                    ops.append(["snap", 1])
            ops += [["snap", 1], ["len", 1], ["empty", 1]]
            ses.append({"ty": name, "cont": "map", "ops": ops})
        for _ in range(6 if c.thorough else 2):
            ses.append({"ty": name, "cont": "map", "ops": random_core(c.rng, n, 400 if c.thorough else 150)})
    c.conform(ses, "TraceMap", "core")
    wild(c, maps=["core", "entry"])


def random_core(rng, n, length, slots=2):
    ops = [["new", o] for o in range(1, slots + 1)]
    every = max(6, n)
    for i in range(length):
        o, k = rng.randint(1, slots), gen.hot(rng, n)
        w = rng.randint(1, 1 << 20)
        x = rng.random()
        if x < 0.4:
            ops.append(["insert", o, k, w])
        elif x < 0.55:
            ops.append(["remove", o, k])
        elif x < 0.7:
            ops.append(["get", o, k])
        elif x < 0.8:
            ops.append(["contains", o, k])
        elif x < 0.92:
            ops.append(["getmut", o, k, rng.choice([0, w])])
        elif x < 0.93:
            ops.append(["clear", o])
        else:
            ops.append(["len", o])
            ops.append(["empty", o])
        if i % every == every - 1:
            ops.append(["snap", o])
    return ops + [["snap", o] for o in range(1, slots + 1)]



# ------------------------------------------------------------------ staging
def stage_map(rng, o, content, n):
    """Silent operations that leave slot o with this content, by a random route."""
    ops = [["new", o]]
    order = list(content)
    rng.shuffle(order)
    noise = rng.random() < 0.5
    for k in order:
        if noise and rng.random() < 0.3:
            ops.append(["insert", o, k, rng.randint(1, 999)])
        if noise and rng.random() < 0.3:
            x = rng.randint(1, n)
            if x not in content:
                ops += [["insert", o, x, 5], ["remove", o, x]]
        ops.append(["insert", o, k, content[k]])
    return ["q"] + ops


def stage_set(rng, o, content, n):
    ops = [["new", o]]
    order = list(content)
    rng.shuffle(order)
    noise = rng.random() < 0.5
    for k in order:
        if noise and rng.random() < 0.3:
            x = rng.randint(1, n)
            if x not in content:
                ops += [["insert", o, x], ["remove", o, x]]
        ops.append(["insert", o, k])
        if noise and rng.random() < 0.2:
            ops += [["remove", o, k], ["insert", o, k]]
    return ["q"] + ops


def subsets(c, n, small=4, many=12):
    """All key sets if there are few, else a varied selection (always the extremes)."""
    if n <= small:
        return [[k for k in range(1, n + 1) if m >> (k - 1) & 1] for m in range(1 << n)]
    out = [[], list(range(1, n + 1)), [1], [n], [1, n]]
    out += [gen.subset(c.rng, n) for _ in range(many - len(out))]
    return out


def distinct_vals(rng, ks):
    return dict(zip(ks, rng.sample(range(1, 100000), len(ks))))


def rand_types(c, count, prefix="R"):
    out = {}
    for i in range(count):
        t = keys.rand_type(c.rng, "%s%d" % (prefix, i), depth=c.rng.choice([1, 2, 2, 3]))
        t["val"] = c.rng.choice(["Val"] * 4 + keys.KINDS[:4])
        out[t["name"]] = t
    return out


def all_types(c, quick=4, thorough=16, skip=(), kinds=True, zero=True, large=True):
    types = {k: v for k, v in keys.catalogue().items() if k not in skip}
    if large:
        types.update({k: t for k, t in keys.large().items() if c.thorough or large is True or k in large})
    if kinds:
        types.update({k: t for k, t in keys.kinds().items() if zero or not keys.zero(t)})
    types.update(rand_types(c, thorough if c.thorough else quick))
    return types


# types that differ in nothing but size: fewer of them where sizes matter less
MANY_SIZES = ["U7", "U16", "U17", "U32", "U33", "U65", "U100", "B7", "B5", "B15", "B31", "B63", "B127", "B100", "B4"]


# ------------------------------------------------------------------ C02
def c02(c):
    c.model("SetModel", "SPECIFICATION Spec\nCONSTANTS NK=2 MaxHist=%d Emit=FALSE\nINVARIANTS LawMember LawTruth SetTypeOK\n"
            "PROPERTIES LawFrame\nVIEW View\nCHECK_DEADLOCK FALSE\n" % (6 if c.thorough else 5), "laws over histories of set operations")
    g = {}
    for nk in (1, 2, 3):
        out = c.model("SetModel", "SPECIFICATION Spec\nCONSTANTS NK=%d MaxHist=0 Emit=TRUE\nVIEW View\nACTION_CONSTRAINT EmitT\n"
                      "CHECK_DEADLOCK FALSE\n" % nk, "labelled transitions of the set machine, %d keys" % nk, workers=1)
        g[nk] = gen.graph(gen.printed(out))
    storage(c, ["core"], 1, 4, 150 if c.thorough else 50, 8 if c.thorough else 6, "every operation on every content is the one of the flat set")
    types = all_types(c, kinds=False)
    c.build(types, ["s_core"])
    ses = []
    for name, t in types.items():
        n = sz(t)
        if n == 0:
            ses.append({"ty": name, "cont": "set", "ops": [["new", 1], ["snap", 1], ["len", 1], ["empty", 1], ["clear", 1], ["snap", 1]]})
            continue
        big = n > 33
        m = min(n, 3)
        for pick in gen.picks(c.rng, n, m, 6 if c.thorough else 3):
            ops = [["new", 1, c.rng.choice(["new", "default"])]]
            for i, op in enumerate(gen.covering_walk(g[m], [0] * m, c.rng)):
                ops.append(["clear", 1] if op[0] == "clear" else [op[0], 1, pick[op[1] - 1]])
                if not big or i % 10 == 0:
                    ops.append(["snap", 1])
            ops += [["snap", 1], ["len", 1], ["empty", 1]]
            ses.append({"ty": name, "cont": "set", "ops": ops})
        for _ in range(8 if c.thorough else 3):
            ops, every = [["new", 1], ["new", 2]], max(6, n)
            for i in range(300 if c.thorough else 150):
                o, k, x = c.rng.randint(1, 2), gen.hot(c.rng, n), c.rng.random()
                ops.append(["insert", o, k] if x < 0.45 else ["remove", o, k] if x < 0.7 else
                           ["contains", o, k] if x < 0.97 else ["clear", o])
                if i % every == every - 1:
                    ops.append(["snap", o])
            ses.append({"ty": name, "cont": "set", "ops": ops + [["snap", 1], ["snap", 2]]})
    c.conform(ses, "TraceSet", "core")
    wild(c, sets=["core"])


# ------------------------------------------------------------------ C03, C04, C05
def c03(c):
    c.model("ViewModel", "SPECIFICATION Spec\nCONSTANTS NK=3 NV=2\nINVARIANTS LawViews LawLen\nCHECK_DEADLOCK FALSE\n",
            "which whole-map readings the machine admits")
    storage(c, ["core", "iter"], 1, 4, 100 if c.thorough else 30, 6 if c.thorough else 5, "length, emptiness and iteration of every content")
    types = all_types(c)
    c.build(types, ["m_core", "m_iter", "m_retain"])
    ses = []
    for name, t in types.items():
        n = sz(t)
        ops = []
        subs = subsets(c, n, 5 if c.thorough else 4, 24 if c.thorough else 10)
        for s in subs:
            content = {k: c.rng.randint(1, 3 if c.rng.random() < 0.3 else 99999) for k in s}
            ops += [stage_map(c.rng, 1, content, n), ["adopt", 1], ["len", 1], ["empty", 1], ["views", 1], ["views", 1, "mut"], ["debug", 1]]
            if s and c.rng.random() < 0.6:
                # another state, reached by other operations
                k = c.rng.choice(s)
                x = c.rng.random()
                more = (["remove", 1, k] if x < 0.3 else ["getmut", 1, k, 77] if x < 0.5 else
                        ["retain", 1, {str(q): [c.rng.randint(0, 1), 0] for q in s}] if x < 0.9 else ["clear", 1])
                ops += [["q", more], ["adopt", 1], ["len", 1], ["empty", 1], ["views", 1], ["views", 1, "mut"], ["debug", 1]]
            ops += [["consume", 1]]
        ses.append({"ty": name, "cont": "map", "ops": ops})
    c.conform(ses, "TraceMap", "views")
    wild(c, maps=["view"])


def c04(c):
    c.model("SetModel", "SPECIFICATION Spec\nCONSTANTS NK=3 MaxHist=3 Emit=FALSE\nINVARIANTS LawMember LawTruth SetTypeOK\n"
            "PROPERTIES LawFrame\nVIEW View\nCHECK_DEADLOCK FALSE\n", "set machine laws")
    types = all_types(c, kinds=False)
    c.build(types, ["s_core", "s_iter", "s_retain"])
    ses = []
    for name, t in types.items():
        n = sz(t)
        ops = []
        for s in subsets(c, n, 6 if c.thorough else 5, 40 if c.thorough else 16):
            ops += [stage_set(c.rng, 1, s, n), ["adopt", 1], ["len", 1], ["empty", 1], ["views", 1], ["debug", 1]]
            if s and c.rng.random() < 0.6:
                k, x = c.rng.choice(s), c.rng.random()
                more = (["remove", 1, k] if x < 0.5 else ["retain", 1, {str(q): c.rng.randint(0, 1) for q in s}] if x < 0.9 else ["clear", 1])
                ops += [["q", more], ["adopt", 1], ["len", 1], ["empty", 1], ["views", 1], ["debug", 1]]
            ops += [["consume", 1]]
        ses.append({"ty": name, "cont": "set", "ops": ops})
    c.conform(ses, "TraceSet", "views")
    wild(c, sets=["view"])


def c05(c):
    c.model("KeyOrder", "SPECIFICATION Spec\nCONSTANTS Depth=2\nINVARIANTS LawSize LawTotal LawContiguous LawNested LawBool LawOption\nCHECK_DEADLOCK FALSE\n",
            "the recursive key order over all key-type terms of bounded depth")
    storage(c, ["iter"], 1, 5, 200 if c.thorough else 50, 8 if c.thorough else 6, "the tree iterators yield in the promised order")
    types = all_types(c, 10, 40, zero=False)
    c.build(types, ["m_core", "m_iter", "s_core", "s_iter"])
    ms, ss = [], []
    for name, t in types.items():
        n = sz(t)
        mo, so = [], []
        for s in subsets(c, n, 5, 24 if c.thorough else 10):
            mo += [stage_map(c.rng, 1, distinct_vals(c.rng, s), n), ["adopt", 1], ["ord", 1], ["consume", 1, 1]]
            so += [stage_set(c.rng, 1, s, n), ["adopt", 1], ["ord", 1], ["consume", 1, 1]]
        ms.append({"ty": name, "cont": "map", "ops": mo})
        ss.append({"ty": name, "cont": "set", "ops": so})
    c.conform(ms, "TraceMap", "order")
    c.conform(ss, "TraceSet", "setorder")
    wild(c, maps=["order"], sets=["order"])


# ------------------------------------------------------------------ C06
M_KINDS = ["iter", "keys", "values", "iter_mut", "values_mut", "into", "ref", "ref_mut"]


def iter_seqs(c, length):
    """All call sequences of this length, from the specification."""
    out = c.model("IterModel", "SPECIFICATION Spec\nCONSTANTS NK=1 Groups=1 MaxHist=%d Emit=TRUE\nVIEW View\nACTION_CONSTRAINT EmitT\n"
                  "CHECK_DEADLOCK FALSE\n" % length, "all call sequences of length %d" % length, workers=1)
    return gen.printed(out)


def dress(rng, seq, n, kind, into, clones, keyed, sub):
    """Turn a call sequence into iterator steps with probes, clones and an end."""
    steps = []
    live = [0]
    cl = rng.randrange(len(seq) + 1) if clones and rng.random() < 0.5 else -1
    if rng.random() < 0.4:
        steps.append(["hint", 0])
    for i, (call, arg) in enumerate(seq):
        if i == cl:
            steps.append(["clone", 0])
            live.append(1)
        if rng.random() < 0.08 and keyed and n:
            steps.append([rng.choice(["find", "rfind"]), 0, rng.choice(sub) if sub and rng.random() < 0.8 else rng.randint(1, n)])
        steps.append([call, 0, arg])
        if rng.random() < 0.5:
            steps.append(["hint", 0])
        if rng.random() < 0.1:
            steps.append(["len", 0])
    for j in rng.sample(live, len(live)):
        end = rng.randrange(8)
        if j == 1 or end > 5:
            for _ in range(rng.randint(0, 3)):
                steps.append([rng.choice(["next", "back"]), j])
                steps.append(["hint", j])
        if end == 0:
            steps.append(["fold", j])
        elif end == 1:
            steps.append(["rfold", j])
        elif end == 2:
            steps.append(["count", j])
        elif end == 3:
            steps.append(["last", j])
        elif end == 4:
            steps += [["next", j]] * rng.randint(0, n if n < 8 else 3) + [["back", j]] * rng.randint(0, 2) + [["hint", j], ["rcollect", j]]
        elif end == 5:
            steps.append(["collect", j])
        else:
            # run dry, then keep asking
            if n <= 8 or rng.random() < 0.3:
                for _ in range(len(sub) + 1):
                    steps.append([rng.choice(["next", "back"]), j])
                steps += [["hint", j], ["next", j], ["back", j], ["nth", j, 0], ["nthb", j, 1], ["next", j], ["hint", j], ["count", j]]
            else:
                steps += [["nth", j, max(0, len(sub) - 2)], ["hint", j], ["next", j], ["next", j], ["back", j], ["hint", j]]
    return steps


def c06(c):
    c.model("IterModel", "SPECIFICATION Spec\nCONSTANTS NK=3 Groups=1 MaxHist=%d Emit=FALSE\nINVARIANTS LawOnce LawContained LawOrder LawFused LawAll LawNth LawBounds\n"
            "CHECK_DEADLOCK FALSE\n" % (5 if c.thorough else 4), "laws of double-ended iteration over every call sequence")
    c.model("IterModel", "SPECIFICATION Spec\nCONSTANTS NK=4 Groups=2 MaxHist=%d Emit=FALSE\nINVARIANTS LawOnce LawContained LawOrder LawFused LawAll LawNth LawBounds\n"
            "CHECK_DEADLOCK FALSE\n" % 4, "the same with unordered (dynamic) blocks")
    seqs = iter_seqs(c, 4 if c.thorough else 3)
    storage(c, ["iter"], 1, 5, 200 if c.thorough else 60, 8 if c.thorough else 7, "the tree iterators are cursors, from both ends, with true bounds")
    types = all_types(c, 4, 16, skip=MANY_SIZES)
    c.build(types, ["m_core", "m_iter", "s_core", "s_iter"])
    ms, ss = [], []
    for name, t in types.items():
        n = sz(t)
        composite = t["t"] in ("enum", "opt")
        for cont in ("map", "set"):
            subs = subsets(c, n, 4, 8)
            per = (len(seqs) // 2 if c.thorough else 240 if composite else 90)
            if n > 33:
                per //= 4
            ops = []
            chosen = [seqs[i % len(seqs)] for i in c.rng.sample(range(len(seqs)), min(per, len(seqs)))]
            for i, q in enumerate(chosen):
                s = subs[i % len(subs)] if n > 4 or i % 3 == 0 else list(range(1, n + 1)) if i % 3 == 1 else c.rng.choice(subs)
                kind = c.rng.choice(M_KINDS if cont == "map" else ["iter", "ref", "into"])
                into = kind in ("into", "iter_mut", "ref_mut", "values_mut")
                st = stage_map(c.rng, 1, distinct_vals(c.rng, s), n) if cont == "map" else stage_set(c.rng, 1, s, n)
                steps = dress(c.rng, q, n, kind, into, not into, not kind.startswith("values"), s)
                ops += [st, ["adopt", 1], ["iter", 1, kind, steps]]
            (ms if cont == "map" else ss).append({"ty": name, "cont": cont, "ops": ops})
    c.conform(split(ms), "TraceMap", "iter")
    c.conform(split(ss), "TraceSet", "setiter")
    wild(c, maps=["iter", "into"], sets=["iter", "into"])


def split(ses, size=120):
    """Cut long sessions (of independent groups starting with a silent stage) into shorter ones."""
    out = []
    for s in ses:
        cur = []
        for op in s["ops"]:
            if op[0] == "q" and len(cur) >= size:
                out.append(dict(s, ops=cur))
                cur = []
            cur.append(op)
        if cur:
            out.append(dict(s, ops=cur))
    return out


# ------------------------------------------------------------------ C07
def entry_chains(c, steps):
    out = c.model("EntryModel", "SPECIFICATION Spec\nCONSTANTS MaxSteps=%d Emit=TRUE\nINVARIANTS LawOther LawPassive LawPresent LawRemove LawKeep\n"
                  "ACTION_CONSTRAINT EmitT\nCHECK_DEADLOCK FALSE\n" % steps, "entry chains of at most %d calls: laws and chains" % steps, workers=1)
    return gen.printed(out)


def entry_ops(c, n, chain, fuse=None):
    """A chain on a random key among random others; the other model key is a real one if there is one."""
    rng = c.rng
    k = gen.hot(rng, n)
    content = {}
    if chain["m"][0]:
        content[k] = rng.randint(1, 9999)
    others = [x for x in range(1, n + 1) if x != k]
    if chain["m"][1] and others:
        for x in rng.sample(others, min(len(others), rng.choice([1, 1, 2, 5, len(others)]))):
            content[x] = rng.randint(1, 9999)
    steps = [[s[0], rng.randint(1, 9999) if s[1] else 0, 1 if fuse == i else 0] for i, s in enumerate(chain["steps"])]
    return k, content, steps


def c07(c):
    chains = entry_chains(c, 5 if c.thorough else 4)
    storage(c, ["entry"], 2, 4, 80 if c.thorough else 30, 6 if c.thorough else 5, "entries reach the cell of their key")
    types = all_types(c, 4, 16, skip=MANY_SIZES)
    c.build(types, ["m_core", "m_entry"])
    ses = []
    for name, t in types.items():
        n = sz(t)
        if n == 0:
            continue
        full = len(chains) if c.thorough else 450 if n < 20 else 120
        ops = []
        for ch in c.rng.sample(chains, min(full, len(chains))):
            k, content, steps = entry_ops(c, n, ch)
            ops += [stage_map(c.rng, 1, content, n), ["adopt", 1], ["entry", 1, k, steps], ["snap", 1]]
            if c.rng.random() < 0.2:
                ops += [["len", 1]]
        ses.append({"ty": name, "cont": "map", "ops": ops})
    c.conform(split(ses), "TraceMap", "entry")
    wild(c, maps=["entry", "entry"])


from .wild import wild  # noqa: E402  (wild uses what is above)

CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07}
