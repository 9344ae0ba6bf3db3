"""C08 onwards."""
import itertools
import json

from . import gen, keys
from .props import (CHECKS, MANY_SIZES, all_types, distinct_vals, dress, entry_chains, entry_ops, iter_seqs, rand_types, split, storage,
                    stage_map, stage_set, subsets, sz)

from .wild import wild

SMALL = [n for n in MANY_SIZES]


def v(rng):
    return rng.randint(1, 99999)


# ------------------------------------------------------------------ C08
def own_graph(c):
    c.model("Ownership", "SPECIFICATION Spec\nCONSTANTS NK=2 MaxId=%d Emit=FALSE\nINVARIANTS LawSomewhere LawOnce LawSingle LawEnd\n"
            "PROPERTIES LawGone LawLost\nVIEW View\nCHECK_DEADLOCK FALSE\n" % (6 if c.thorough else 4), "conservation of values over all operations")
    out = c.model("Ownership", "SPECIFICATION Spec\nCONSTANTS NK=2 MaxId=1000 Emit=TRUE\nVIEW View\nACTION_CONSTRAINT EmitT\n"
                  "CHECK_DEADLOCK FALSE\n", "labelled transitions over presence patterns", workers=1)
    return gen.graph(gen.printed(out))


def own_op(rng, op, pick):
    """A labelled transition of Ownership as plan operations."""
    n, o = op[0], op[1]
    if n in ("new", "drop", "clear"):
        return [[n, o]]
    if n == "insert":
        return [["insert", o, pick[op[2] - 1], v(rng)]]
    if n == "remove":
        return [["remove", o, pick[op[2] - 1]]]
    if n == "getmut":
        return [["getmut", o, pick[op[2] - 1], v(rng)]]
    if n == "retain":
        return [["retain", o, {str(pick[i]): [b, v(rng) if rng.random() < 0.4 else 0] for i, b in enumerate(op[2])}]]
    if n == "retainpanic":
        return [["retain", o, [[0, v(rng) if rng.random() < 0.4 else 0]] * 9, op[2]]]
    if n == "from":
        return [["from", o, [[pick[k - 1], v(rng)] for k in op[2]], rng.randint(0, 3)]]
    if n == "frompanic":
        return [["from", o, [[pick[k - 1], v(rng)] for k in op[2]] + [[pick[0], 1]], rng.randint(0, 3), len(op[2]) + 1]]
    if n == "clone":
        if rng.random() < 0.4:
            return [["new", op[2]], ["insert", op[2], pick[rng.randrange(len(pick))], v(rng)], ["clone", o, op[2], 0, 1]]
        return [["clone", o, op[2]]]
    if n == "clonepanic":
        return [["clone", o, op[2], op[3]]]
    if n == "into":
        st = [["next", 0]] * op[2] + [["back", 0]] * op[3]
        rng.shuffle(st)
        st += rng.choice([[], [["drop", 0]], [["count", 0]], [["last", 0]], [["fold", 0, 1]], [["rfold", 0, 1]], [["hint", 0]], [["collect", 0]],
                          [["nth", 0, 1]], [["nthb", 0, 1]]])
        return [["iter", o, "into", st]]
    k = pick[op[2] - 1]
    chain = {
        "e_or": [[rng.choice(["or_insert", "or_insert_with", "or_insert_with_key", "or_default"]), v(rng), 0]],
        "e_insert": [["match", 0, 0], ["insert", v(rng), 0]],
        "e_remove": [["match", 0, 0], ["remove", 0, 0]],
        "e_drop": rng.choice([[], [["match", 0, 0]], [["key", 0, 0]]]),
        "e_with_panic": [[rng.choice(["or_insert_with", "or_insert_with_key", "or_default"]), v(rng), 1]],
        "e_modify_panic": [["and_modify", v(rng), 1]],
    }[n]
    return [["entry", o, k, chain]]


def boom(rng, o, n):
    """Operations in which a destructor panics."""
    i = rng.choice([1, 1, 2, 3, rng.randint(1, max(2, n))])
    k = gen.hot(rng, n)
    x = rng.randrange(8)
    if x == 0:
        return [["boom", o, i, ["clear", o]]]
    if x == 1:
        return [["boom", o, i, ["drop", o]]]
    if x == 2:
        return [["boom", o, i, ["retain", o, [[rng.randint(0, 1), rng.choice([0, v(rng)])] for _ in range(n)]]]]
    if x == 3:
        # the source repeats keys
        lst = [[rng.randint(1, min(n, 3)), v(rng)] for _ in range(rng.randint(2, 6))]
        return [["drop", o], ["boom", o, i, ["from", o, lst, rng.randint(0, 3)]]]
    if x == 4:
        lst = [[rng.randint(1, min(n, 3)), v(rng)] for _ in range(rng.randint(2, 6))]
        return [["drop", o], ["boom", o, i, ["de", o, lst, -1]]]
    if x == 5:
        return [["boom", o, i, ["clone", o, 3 - o, 0, 1]]]
    if x == 6:
        return [["boom", o, 1, ["entry", o, k, [["or_insert", v(rng), 0]]]]]
    return [["boominto", o, i, rng.randint(0, 2), rng.randint(0, 2), rng.choice(["drop", "drop", "count", "last", "nth", "nthb"])]]


def random_own(c, n, chains, length, counted=False):
    """A random ownership session: anything, in any order."""
    rng = c.rng
    ops = [["new", 1], ["new", 2]]
    for _ in range(length):
        o = rng.randint(1, 2)
        k = gen.hot(rng, n)
        x = rng.random()
        if x < 0.30:
            ops.append(["insert", o, k, v(rng)])
        elif x < 0.36:
            ops.append(["remove", o, k])
        elif x < 0.42:
            ops.append(["getmut", o, k, v(rng)])
        elif x < 0.62:
            ch = rng.choice(chains)
            st = [[s[0], v(rng) if s[1] else 0, 1 if rng.random() < 0.12 else 0] for s in ch["steps"]]
            ops.append(["entry", o, k, st])
        elif x < 0.69:
            at = rng.choice([0, 0, rng.randint(1, max(1, n // 2))])
            ops.append(["retain", o, [[rng.randint(0, 1), rng.choice([0, v(rng)])] for _ in range(n)], at])
        elif x < 0.75:
            lst = [[gen.hot(rng, n), v(rng)] for _ in range(rng.randint(0, 6))]
            ops.append(["from", o, lst, rng.randint(0, 3), rng.choice([0, 0, rng.randint(1, len(lst) + 1)])])
            ops.append(["new", o] if rng.random() < 0.5 else ["len", o])
        elif x < 0.83:
            ops.append(["clone", o, 3 - o, 0 if counted else rng.choice([0, 0, 1, 2, rng.randint(1, 6)]), rng.randint(0, 1)])
        elif x < 0.90:
            kind = rng.choice(["into", "into", "into", "iter_mut", "values_mut", "iter"])
            st = []
            for i in range(rng.randint(0, 5)):
                st.append([rng.choice(["next", "back", "next", "back", "nth", "nthb"]), 0, rng.randint(0, 2)])
                if kind.endswith("_mut") and rng.random() < 0.6:
                    st.append(["write", 0, rng.randint(0, i), v(rng)])
            st += rng.choice([[], [], [["drop", 0]], [["collect", 0]], [["fold", 0, rng.randint(0, 3)]], [["rfold", 0, rng.randint(0, 3)]],
                              [["count", 0]], [["last", 0]], [["rcollect", 0]]])
            ops.append(["iter", o, kind, st])
        elif x < 0.93:
            lst = [[gen.hot(rng, n), v(rng)] for _ in range(rng.randint(0, 4))]
            if lst and rng.random() < 0.5:
                lst[rng.randrange(len(lst))] = rng.choice([[-1, 5], [gen.hot(rng, n), 0]])
            ops.append(["de", o, lst, rng.choice([-1, len(lst), 0, 1000])])
        elif x < 0.94:
            ops.append(["clear", o])
        elif x < 0.95:
            ops.append(["drop", o])
        elif x < 0.96:
            ops.append(["consume", o])
        elif not counted:
            ops += boom(rng, o, n)
        if rng.random() < 0.15:
            ops.append(["new", rng.randint(1, 2)])
        if rng.random() < 0.08:
            ops.append(["snap", o])
    return ops


def full_own(c, n, counted):
    """Everything that releases or hands out all or many values, on full and nearly full maps."""
    rng = c.rng
    ops = []
    ks = list(range(1, n + 1)) if n <= 40 else sorted({1, n} | set(rng.sample(range(1, n + 1), 24)))

    def fill(o):
        lst = ks if rng.random() < 0.6 else rng.sample(ks, max(1, len(ks) * 3 // 4))
        lst = rng.sample(lst, len(lst))
        if rng.random() < 0.5:
            return [["drop", o], ["from", o, [[k, v(rng)] for k in lst], rng.randint(0, 3), 0]]
        return [["new", o]] + [["insert", o, k, v(rng)] for k in lst]

    keep = lambda p: [[1 if rng.random() < p else 0, rng.choice([0, v(rng)])] for _ in range(n)]
    steps = lambda: [[rng.choice(["next", "back", "nth", "nthb"]), 0, rng.randint(0, 2)] for _ in range(rng.randint(1, 3))]
    todo = [[["clear", 1], ["len", 1], ["insert", 1, ks[-1], v(rng)]], [["drop", 1]], [["consume", 1]], [["new", 1]],
            [["retain", 1, keep(0), 0]], [["retain", 1, keep(0.5), 0]], [["retain", 1, keep(1), 0]],
            [["retain", 1, keep(0.4), rng.randint(1, n)]],
            [["remove", 1, k] for k in rng.sample(ks, len(ks))],
            [["insert", 1, k, v(rng)] for k in ks] + [["clear", 1]],
            [["clone", 1, 2, 0, 0], ["clear", 1], ["clone", 2, 1, 0, 1], ["drop", 2]],
            [["iter", 1, "into", steps() + [["drop", 0]]]], [["iter", 1, "into", steps() + [["collect", 0]]]],
            [["iter", 1, "into", steps() + [["count", 0]]]], [["iter", 1, "into", [["last", 0]]]]]
    for t in todo:
        ops += fill(1) + t + [["len", 1]]
    return ops


def c08(c):
    g = own_graph(c)
    chains = entry_chains(c, 3)
    types = all_types(c, 4, 16, skip=MANY_SIZES)
    c.build(types, ["m_core", "m_iter", "m_retain", "m_entry", "m_build", "m_cmp", "m_serde"])
    ses = []
    edges = sum(len(x) for x in g.values())
    for name, t in types.items():
        n = sz(t)
        if n < 1:
            continue
        # values without identity or destructor are counted, the others are told apart
        mode = {"count": True} if t.get("val") in ("Zero",) else {} if t.get("val") in ("Plain", "Niche") else {"own": True}
        counted = mode != {"own": True}
        if n >= 2:
            walk = gen.covering_walk(g, [[], []], c.rng)
            if not c.thorough and t["t"] in ("units", "dyn") and n not in (2, 3, 9):
                walk = walk[: edges // 4]
            for pick in gen.picks(c.rng, n, 2, 3 if c.thorough else 1):
                ops = []
                for op in walk:
                    if not (counted and op[0] == "clonepanic"):
                        ops += own_op(c.rng, op, pick)
                ses.append({"ty": name, "cont": "map", "ops": ops, **mode})
        ses.append({"ty": name, "cont": "map", **mode, "ops": full_own(c, n, counted)})
        for _ in range(8 if c.thorough else 3):
            ses.append({"ty": name, "cont": "map", **mode, "ops": random_own(c, n, chains, 400 if c.thorough else 120 if n < 40 else 40, counted)})
    c.conform(ses, "TraceMap", "own")


# ------------------------------------------------------------------ C09
ODD = 1000003


def c09(c):
    for nk in (2, 3):
        c.model("CompareLaws", "SPECIFICATION Spec\nCONSTANTS NK=%d NV=%d\nINVARIANTS LawEq LawSelf LawSym LawHash LawClone LawFresh\nCHECK_DEADLOCK FALSE\n" % (nk, 4 - nk),
                "equality, hashing and cloning over all pairs of small maps")
    storage(c, ["two"], 1, 4, 80 if c.thorough else 25, 5 if c.thorough else 4, "equality and clones, tree by tree")
    types = all_types(c)
    c.build(types, ["m_core", "m_cmp", "s_core", "s_cmp"])
    ms, ss = [], []
    rng = c.rng
    for name, t in types.items():
        n = sz(t)
        big = n > 33
        # new and default containers are empty, and equal
        mo = []
        so = []
        for how in ("new", "default"):
            mo += [["new", 1, how], ["snap", 1], ["len", 1], ["empty", 1], ["new", 2, "new" if how == "default" else "default"], ["eq", 1, 2], ["hash", 1, 2], ["eq", 1, 1]]
            so += [["new", 1, how], ["snap", 1], ["len", 1], ["empty", 1], ["new", 2, "new" if how == "default" else "default"], ["eq", 1, 2], ["hash", 1, 2], ["eq", 1, 1]]
        subs = subsets(c, n, 3, 8)
        pairs = list(itertools.product(subs, subs)) if len(subs) <= 8 else []
        pairs = [p for p in pairs]
        reps = 60 if c.thorough else 25
        todo = [(a, b) for a, b in pairs]
        rng.shuffle(todo)
        todo = todo[: 12 if big else reps]
        # nearly equal contents: one key or one value apart
        near = []
        for k in range(1, n + 1) if n <= 24 or c.thorough else [gen.hot(rng, n) for _ in range(10)]:
            base = gen.subset(rng, n)
            near.append((base, sorted(set(base) ^ {k})))
        for a, b in todo + near:
            ma = {k: rng.randint(1, 2) for k in a}
            mb = {k: ma.get(k, rng.randint(1, 2)) for k in b}
            if rng.random() < 0.4 and mb:
                k = rng.choice(list(mb))
                mb[k] = 3 - mb[k]
            if rng.random() < 0.15 and ma:
                # a value that equals nothing, not even itself
                k = rng.choice(list(ma))
                ma[k] = ODD
                if k in mb:
                    mb[k] = ODD
            mo += [stage_map(rng, 1, ma, n), ["adopt", 1], stage_map(rng, 2, mb, n), ["adopt", 2], ["eq", 1, 2], ["eq", 2, 1], ["hash", 1, 2]]
            so += [stage_set(rng, 1, a, n), ["adopt", 1], stage_set(rng, 2, b, n), ["adopt", 2], ["eq", 1, 2], ["eq", 2, 1], ["hash", 1, 2]]
            # the same content by another route
            mo += [stage_map(rng, 2, ma, n), ["adopt", 2], ["eq", 1, 2], ["hash", 1, 2], ["eq", 1, 1]]
            so += [stage_set(rng, 2, a, n), ["adopt", 2], ["eq", 1, 2], ["hash", 1, 2], ["eq", 1, 1]]
        for a in subs[:8]:
            ma = {k: rng.randint(1, 9) for k in a}
            for cont, ops in (("map", mo), ("set", so)):
                ops += [stage_map(rng, 1, ma, n) if cont == "map" else stage_set(rng, 1, a, n), ["adopt", 1]]
                if rng.random() < 0.5 and n:
                    # a target with something in it
                    ops += [["q", ["new", 2], ["insert", 2, gen.hot(rng, n), 8]], ["adopt", 2]]
                    if rng.random() < 0.5:
                        ops += [["q", ["insert", 2, gen.hot(rng, n), 7]], ["adopt", 2]]
                ops += [["clone", 1, 2, 0, rng.randint(0, 1)] if cont == "map" else ["clone", 1, 2], ["snap", 2], ["eq", 1, 2], ["eq", 2, 1], ["hash", 1, 2], ["len", 2], ["empty", 2]]
                # the two evolve independently
                for o in (2, 1):
                    for _ in range(3):
                        if not n:
                            break
                        k = rng.choice(a) if a and rng.random() < 0.6 else gen.hot(rng, n)
                        ops.append(rng.choice([["insert", o, k, 50], ["remove", o, k]] + ([["getmut", o, k, 60]] if cont == "map" else [])))
                    if rng.random() < 0.2:
                        ops.append(["clear", o])
                    ops += [["snap", 1], ["snap", 2], ["eq", 1, 2], ["hash", 1, 2]]
                ops += [["drop", 1], ["snap", 2]]
        ms.append({"ty": name, "cont": "map", "ops": mo})
        ss.append({"ty": name, "cont": "set", "ops": so})
    c.conform(ms, "TraceMap", "cmp")
    c.conform(ss, "TraceSet", "setcmp")
    wild(c, maps=["cmp"], sets=["cmp"])


# ------------------------------------------------------------------ C10
def c10(c):
    laws = "INVARIANTS LawReflexive LawAntisym LawEq LawTotal LawTrans LawStrict LawFirst LawNaN LawEmpty LawListing\nCHECK_DEADLOCK FALSE\n"
    trip = {}
    for kind, nk, nv, nan in (("total", 3, 2, "FALSE"), ("partial", 3, 1, "TRUE"), ("set", 4, 1, "FALSE")):
        out = c.model("OrderLaws", "SPECIFICATION Spec\nCONSTANTS NK=%d NV=%d WithNaN=%s Emit=TRUE\nCONSTRAINT EmitT\n%s" % (nk, nv, nan, laws),
                      "laws of container order over all triples (%s)" % kind, workers=1)
        trip[kind] = gen.printed(out)
    if c.thorough:
        c.model("OrderLaws", "SPECIFICATION Spec\nCONSTANTS NK=3 NV=2 WithNaN=TRUE Emit=FALSE\n" + laws, "laws with incomparable values")
    rng = c.rng
    types = {k: t for k, t in keys.catalogue().items() if t["t"] in ("units", "one")}
    for i in range(6 if c.thorough else 3):
        n = rng.choice([5, 6, 10, 12, 20, 24, 40, 50, 90])
        for b in (False, True):
            t = keys.units(n, "Ord%d%s" % (i, "b" if b else ""), bitset=b, discr=True)
            types[t["name"]] = t
    c.build(types, ["m_core", "m_order", "s_core", "s_order"])
    ses = []
    full = {"U3": 1, "U4": 1, "B3": 1, "B4": 1}
    for name, t in types.items():
        n = sz(t)
        ops = []

        def shuffled(s, pick, pairs):
            s = [([pick[k - 1], x] if pairs else pick[k - 1]) for k, x in s]
            rng.shuffle(s)
            return s

        if t["t"] == "units":
            for kind in ("total", "partial"):
                ts = [x for x in trip[kind] if all(k <= n for s in x for k, _ in s)]
                if kind == "partial":
                    ts = [x for x in ts if not x[2]] if not c.thorough else ts
                cnt = len(ts) if c.thorough and name in full else min(len(ts), 2500 if name in full else 250 if n < 40 else 60)
                for a, b, d in rng.sample(ts, cnt):
                    pick = sorted(rng.sample(range(1, n + 1), min(3, n)))
                    if n > 6 and rng.random() < 0.3:
                        pick = sorted({1, n, rng.randint(2, n - 1)})
                    ops.append(["m"] + [shuffled(s, pick, True) for s in (a, b, d)] + [1 if kind == "total" else 0])
        ts = [x for x in trip["set"] if all(k <= n for s in x for k, _ in s)]
        cnt = len(ts) if (c.thorough and n < 40) or n <= 4 else min(len(ts), 400 if n < 40 else 120)
        for a, b, d in rng.sample(ts, cnt):
            pick = sorted(rng.sample(range(1, n + 1), min(4, n)))
            if n > 8 and rng.random() < 0.4:
                pick = sorted(rng.sample(sorted({1, 2, 7, 8, 9, n - 1, n, n // 2}), 4))
            ops.append(["s"] + [shuffled(s, pick, False) for s in (a, b, d)])
        # larger random contents, mostly alike
        for _ in range((120 if c.thorough else 40) if n > 3 else 0):
            base = {k: rng.randint(1, 3) for k in gen.subset(rng, n)}
            alt = []
            for _ in range(3):
                m = dict(base)
                for _ in range(rng.choice([0, 1, 1, 2])):
                    k = gen.hot(rng, n)
                    x = rng.random()
                    if x < 0.4:
                        m.pop(k, None)
                    else:
                        m[k] = rng.randint(1, 3)
                it = list(m.items())
                rng.shuffle(it)
                alt.append([list(x) for x in it])
            if t["t"] == "units":
                part = rng.random() < 0.3
                if part:
                    for s in alt:
                        if s:
                            s[rng.randrange(len(s))][1] = 9
                ops.append(["m"] + alt + [0 if part else 1])
            ops.append(["s"] + [[k for k, _ in s] for s in alt])
        for i in range(0, len(ops), 400):
            ses.append({"ty": name, "cont": "order", "ops": ops[i:i + 400]})
    c.conform(ses, "TraceOrder", "order")


# ------------------------------------------------------------------ C11
WIDTH = {1: 8, 2: 16, 4: 32, 8: 64, 16: 128}


def c11(c):
    c.model("BitsetStorage", "SPECIFICATION Spec\nCONSTANTS NV=3 W=5\nINVARIANTS Refines LawRaw LawJunk LawWidth LawCount LawBack\nPROPERTIES Lockstep\nCHECK_DEADLOCK FALSE\n",
            "the bit machine refines the plain set, unknown bits included")
    g = {}
    for nk in (1, 2, 3):
        out = c.model("SetModel", "SPECIFICATION Spec\nCONSTANTS NK=%d MaxHist=0 Emit=TRUE\nVIEW View\nACTION_CONSTRAINT EmitT\n"
                      "CHECK_DEADLOCK FALSE\n" % nk, "labelled transitions of the set machine, %d keys" % nk, workers=1)
        g[nk] = gen.graph(gen.printed(out))
    rng = c.rng
    types = {k: t for k, t in keys.catalogue().items() if t["t"] == "units" and t["bitset"]}
    for n in (6, 10, 11, 12, 13, 14, 18, 20, 24, 25, 30, 34, 40, 48, 50, 62, 66, 72, 80, 96, 111, 120, 126):
        if c.thorough or rng.random() < 0.3:
            types["B%d" % n] = keys.units(n, bitset=True)
    # and nested inside other keys, where only the set behaviour is visible
    for k in ("CBN", "CN", "oB3"):
        types[k] = keys.catalogue()[k]
    c.build(types, ["s_core", "s_iter", "s_retain", "s_build", "s_cmp", "s_raw", "s_inter", "s_serde"])
    ses = []
    seqs = iter_seqs(c, 3)
    for name, t in types.items():
        n = sz(t)
        w = keys.raw_width(n) if t["t"] == "units" else n
        ops = [["new", 1, "default"], ["raw", 1], ["len", 1], ["empty", 1]]
        if n:
            m = min(n, 3)
            for pick in gen.picks(rng, n, m, 5 if c.thorough else 2):
                ops += [["new", 1]]
                for i, op in enumerate(gen.covering_walk(g[m], [0] * m, rng)):
                    ops.append(["clear", 1] if op[0] == "clear" else [op[0], 1, pick[op[1] - 1]])
                    ops.append(["raw", 1])
                    if n < 20 or i % 9 == 0:
                        ops.append(["snap", 1])
        # every variant alone, all but one, and both ends of the integer
        for k in range(1, n + 1):
            ops += [["new", 1], ["insert", 1, k], ["raw", 1], ["len", 1], ["fromraw", 2, [k - 1]], ["snap", 2], ["eq", 1, 2], ["contains", 2, k]]
            if n <= 33 or k in (1, 8, 9, 16, 17, 32, 33, 64, 65, n):
                ops += [["fromraw", 2, [b for b in range(n) if b != k - 1]], ["raw", 2], ["len", 2], ["remove", 2, k], ["contains", 2, k], ["insert", 2, k], ["raw", 2]]
        # bits that belong to no variant
        for _ in range(60 if c.thorough else 16):
            x = rng.random()
            s = gen.subset(rng, n)
            junk = list(range(n, w)) if x < 0.3 else [b for b in range(n, w) if rng.random() < 0.5]
            if x > 0.9:
                s = []
            bits = [k - 1 for k in s] + junk
            ops += [["fromraw", 1, bits], ["snap", 1], ["len", 1], ["empty", 1], ["views", 1], ["debug", 1], ["raw", 1]]
            ops += [stage_set(rng, 2, s, n), ["adopt", 2], ["eq", 1, 2], ["eq", 2, 1], ["hash", 1, 2], ["raw", 2],
                    ["inter", 1, 2, [["hint", 0], ["collect", 0]]], ["ser", 1], ["clone", 1, 3], ["raw", 3], ["eq", 3, 2]]
            k = gen.hot(rng, n) if n else 0
            if n:
                ops += [["insert", 1, k], ["insert", 2, k], ["eq", 1, 2], ["remove", 1, k], ["raw", 1], ["snap", 1]]
            ops += [["retain", 1, {str(q): rng.randint(0, 1) for q in range(1, n + 1)}], ["raw", 1], ["snap", 1], ["clear", 1], ["raw", 1], ["empty", 1]]
        # the rest of the surface
        for s in subsets(c, n, 3, 8):
            ops += [stage_set(rng, 1, s, n), ["adopt", 1], ["raw", 1], ["views", 1], ["ord", 1], ["debug", 1], ["len", 1]]
            q = seqs[rng.randrange(len(seqs))]
            ops += [["iter", 1, "iter", dress(rng, q, n, "iter", False, True, True, s)]]
            lst = [gen.hot(rng, n) for _ in range(rng.randint(0, 5))] if n else []
            ops += [["from", 2, lst, rng.randint(0, 3)], ["raw", 2], ["array", 3, lst], ["raw", 3], ["eq", 2, 3], ["roundtrip", 2, 3], ["raw", 3]]
            ops += [["consume", 1, 1]]
        for _ in range(10 if c.thorough else 3):
            ops += [["new", 1], ["new", 2]]
            for i in range(60):
                o, k, x = rng.randint(1, 2), gen.hot(rng, n) if n else 0, rng.random()
                if not n:
                    break
                ops.append(["insert", o, k] if x < 0.5 else ["remove", o, k] if x < 0.75 else ["contains", o, k] if x < 0.85 else
                           ["raw", o] if x < 0.93 else ["eq", 1, 2] if x < 0.98 else ["clear", o])
            ops += [["snap", 1], ["snap", 2]]
        ses.append({"ty": name, "cont": "set", "ops": ops})
    # raw only exists on the key types themselves
    c.conform(ses, "TraceSet", "bits")
    # order: the same answers as the plain set of the same keys
    out = c.model("OrderLaws", "SPECIFICATION Spec\nCONSTANTS NK=4 NV=1 WithNaN=FALSE Emit=TRUE\nCONSTRAINT EmitT\nINVARIANTS LawEq\nCHECK_DEADLOCK FALSE\n",
                  "triples of sets", workers=1)
    trip = gen.printed(out)
    bt = {k: t for k, t in types.items() if t["t"] == "units" and sz(t) in (2, 3, 4, 8, 9, 17, 33, 65, 128)}
    c.build(bt, ["s_core", "s_order"], tag="o")
    ses = []
    for name, t in bt.items():
        n = sz(t)
        ops = []
        for a, b, d in rng.sample(trip, 300):
            if any(k > n for s in (a, b, d) for k, _ in s):
                continue
            pick = sorted(rng.sample(range(1, n + 1), min(4, n)))
            ops.append(["s"] + [[pick[k - 1] for k, _ in s] for s in (a, b, d)])
        ses.append({"ty": name, "cont": "order", "ops": ops})
    c.conform(ses, "TraceOrder", "bitorder")


# ------------------------------------------------------------------ C12
def inter_steps(rng, common, n, quick):
    st = [["hint", 0]] if rng.random() < 0.6 else []
    live = [0]
    m = len(common)
    for i in range(rng.randint(0, m + 2 if m < 8 else 6)):
        x = rng.random()
        j = rng.choice(live)
        if x < 0.6:
            st.append(["next", j])
        elif x < 0.72:
            st.append(["nth", j, rng.randint(0, 2)])
        elif x < 0.8 and n:
            st.append(["find", j, rng.choice(common) if common and rng.random() < 0.7 else rng.randint(1, n)])
        elif x < 0.9:
            st.append(["peek", j])
        elif len(live) < 3:
            st.append(["clone", j])
            live.append(len(live))
        if rng.random() < 0.5:
            st.append(["hint", j])
        if rng.random() < 0.3:
            st.append(["peek", j])
    for j in live:
        x = rng.randrange(7)
        if x == 6:
            st += [["next", j], ["hint", j]] * (min(m, 8) + 2) + [["nth", j, 0], ["peek", j]]
        else:
            st += [[["fold", j, 0], ["collect", j], ["count", j], ["last", j], ["peek", j], ["drop", j]][x]]
    return st


def c12(c):
    c.model("InterModel", "SPECIFICATION Spec\nCONSTANTS NK=%d\nINVARIANTS LawCommon LawCommute LawBounds LawSmaller\nPROPERTIES LawUnchanged\nCHECK_DEADLOCK FALSE\n" % (5 if c.thorough else 4),
            "intersection of all pairs of small sets, driven to the end")
    types = all_types(c, kinds=False)
    c.build(types, ["s_core", "s_inter"])
    rng = c.rng
    ses = []
    for name, t in types.items():
        n = sz(t)
        ops = []
        subs = subsets(c, n, 4, 7)
        pairs = list(itertools.product(subs, subs))
        rng.shuffle(pairs)
        pairs = pairs[: 300 if c.thorough or n <= 4 else 64 if n < 40 else 24]
        if n > 4:
            for i, (a, b) in enumerate(pairs):
                if rng.random() < 0.5:
                    pairs[i] = (a, sorted(set(b) ^ set(rng.sample(range(1, n + 1), rng.randint(0, 3)))))
            # chosen sizes and overlaps: nothing in common, as large, one apart, one inside the other
            for _ in range(40 if c.thorough else 14 if n < 40 else 6):
                m = rng.randint(1, max(1, n // 2))
                mix = rng.sample(range(1, n + 1), n)
                d = rng.choice([0, 0, 0, 1, m])
                pairs.append((sorted(mix[:m]), sorted(mix[m - d:2 * m - d + rng.choice([0, 0, 1])])))
        for a, b in pairs:
            ops += [stage_set(rng, 1, a, n), ["adopt", 1], stage_set(rng, 2, b, n), ["adopt", 2]]
            common = sorted(set(a) & set(b))
            ops.append(["inter", 1, 2, inter_steps(rng, common, n, not c.thorough)])
            if rng.random() < 0.3:
                ops.append(["inter", 2, 1, inter_steps(rng, common, n, not c.thorough)])
            if rng.random() < 0.1:
                ops.append(["inter", 1, 1, inter_steps(rng, a, n, not c.thorough)])
            ops += [["snap", 1], ["snap", 2]]
        ses.append({"ty": name, "cont": "set", "ops": ops})
    c.conform(split(ses, 400), "TraceSet", "inter")
    wild(c, sets=["inter", "inter"])


# ------------------------------------------------------------------ C13
SHAPES = ["bool", "unit", "str", "int", "bytes", "none"]


def c13(c):
    out = c.model("SerdeModel", "SPECIFICATION Spec\nCONSTANTS NK=2 NV=2 MaxLen=3\nINVARIANTS LawRoundTrip LawLast LawError LawAnnounce LawDone\nACTION_CONSTRAINT EmitT\nCHECK_DEADLOCK FALSE\n",
                  "every short input, well-formed or not, and every round trip", workers=1)
    inputs = gen.printed(out)
    types = all_types(c)
    c.build(types, ["m_core", "m_cmp", "m_serde", "s_core", "s_cmp", "s_serde"])
    rng = c.rng
    ms, ss = [], []
    for name, t in types.items():
        n = sz(t)
        mo, so = [], []
        for s in subsets(c, n, 4 if c.thorough else 3, 12):
            for cont, ops in (("map", mo), ("set", so)):
                ops += [stage_map(rng, 1, distinct_vals(rng, s), n) if cont == "map" else stage_set(rng, 1, s, n), ["adopt", 1], ["ser", 1], ["roundtrip", 1, 2], ["snap", 2], ["eq", 1, 2],
                        ["jtrip", 1, 3], ["snap", 3], ["eq", 1, 3], ["snap", 1], ["new", 4], ["wtrip", 1, 4], ["snap", 4], ["eq", 1, 4],
                        ["wtrip", 1, 5, rng.choice([1, 2, 20, 300, 999])], ["wtrip", 1, 1], ["snap", 1]]
        # all short inputs on two (or one) of the keys
        cnt = len(inputs) if c.thorough else 90 if n < 40 else 30
        for x in rng.sample(inputs, min(cnt, len(inputs))):
            if n < 1:
                break
            pick = rng.sample(range(1, n + 1), min(2, n))
            if any(abs(e[0]) > len(pick) for e in x):
                continue
            val = [v(rng), v(rng)]
            lst = [[pick[e[0] - 1] if e[0] > 0 else -1, val[e[1] - 1] if e[1] > 0 else 0] for e in x]
            ann = rng.choice([-1, len(lst), 0, 1, 2, 7, 1 << 20, (1 << 62)])
            o = rng.randint(1, 2)
            mo += [["de", o, lst, ann], ["snap", o], ["len", o]]
            so += [["de", o, [e[0] for e in lst], ann], ["snap", o], ["len", o]]
        # long inputs, repeated keys, at most one fault at any place
        for _ in range(20 if c.thorough else 6):
            if n < 1:
                break
            lst = [[gen.hot(rng, n), v(rng)] for _ in range(rng.randint(0, 12))]
            if n <= 20 and rng.random() < 0.5:
                lst = [[k, v(rng)] for k in rng.sample(range(1, n + 1), n)] + lst[:3]
            if lst and rng.random() < 0.4:
                i = rng.randrange(len(lst))
                lst[i] = [-1, 5] if rng.random() < 0.5 else [lst[i][0], 0]
            ann = rng.choice([-1, len(lst), 0, 3, 1000])
            mo += [["de", 1, lst, ann], ["snap", 1], ["len", 1], ["roundtrip", 1, 2], ["eq", 1, 2]]
            so += [["de", 1, [e[0] for e in lst], ann], ["snap", 1], ["len", 1], ["roundtrip", 1, 2], ["eq", 1, 2]]
        for sh in SHAPES:
            mo.append(["de", 1, [], -1, sh])
            so.append(["de", 1, [], -1, sh])
        if n:
            mo.append(["de", 1, [[1, 5]], 1, "seq"])
            so.append(["de", 1, [1], 1, "map"])
        mo.append(["de", 1, [], rng.choice([0, -1])])
        so.append(["de", 1, [], rng.choice([0, -1])])
        mo += [["snap", 1], ["empty", 1]]
        so += [["snap", 1], ["empty", 1]]
        ms.append({"ty": name, "cont": "map", "ops": mo})
        ss.append({"ty": name, "cont": "set", "ops": so})
    c.conform(ms, "TraceMap", "serde")
    c.conform(ss, "TraceSet", "setserde")
    wild(c, maps=["serde"], sets=["serde"])


# ------------------------------------------------------------------ C14
FUSES = ("and_modify", "or_insert_with", "or_insert_with_key", "or_default")


def c14(c):
    c.model("PanicModel", "SPECIFICATION Spec\nCONSTANTS NK=3\nINVARIANTS LawKept LawUntouched LawAgain LawAny\nCHECK_DEADLOCK FALSE\n",
            "what may remain after a predicate panicked at each position")
    chains = [ch for ch in entry_chains(c, 3)
              if any(s[0] in FUSES for s in ch["steps"])]
    types = all_types(c, 4, 16, skip=MANY_SIZES)
    c.build(types, ["m_core", "m_iter", "m_retain", "m_entry", "m_build", "m_cmp", "s_core", "s_iter", "s_retain", "s_build", "s_cmp", "s_inter"])
    rng = c.rng
    ms, ss = [], []
    after_m = [["snap", 1], ["len", 1], ["empty", 1], ["views", 1], ["views", 1, "mut"], ["debug", 1]]
    after_s = [["snap", 1], ["len", 1], ["empty", 1], ["views", 1], ["debug", 1]]
    for name, t in types.items():
        n = sz(t)
        mo, so = [], []
        if n == 0:
            continue
        subs = [s for s in subsets(c, n, 4, 9 if n < 60 or c.thorough else 5) if s]
        for s in subs:
            spots = range(1, len(s) + 1) if len(s) <= 6 or c.thorough and len(s) < 20 else sorted({1, 2, len(s), rng.randint(1, len(s))})
            for at in spots:
                for keep in ([0] if rng.random() < 0.3 else [1] if rng.random() < 0.3 else [2]):
                    # by call, not by key: the order of calls is the library's business
                    dec = [[keep if keep < 2 else rng.randint(0, 1), rng.choice([0, v(rng)])] for _ in range(n)]
                    mo += [stage_map(rng, 1, distinct_vals(rng, s), n), ["adopt", 1], ["retain", 1, dec, at]] + after_m
                    mo += [["retain", 1, [[rng.randint(0, 1), 0] for _ in range(n)]], ["snap", 1], ["insert", 1, gen.hot(rng, n), 5], ["snap", 1], ["consume", 1]]
                    so += [stage_set(rng, 1, s, n), ["adopt", 1], ["retain", 1, [d[0] for d in dec], at]] + after_s
                    so += [["retain", 1, [rng.randint(0, 1) for _ in range(n)]], ["snap", 1], ["insert", 1, gen.hot(rng, n)], ["snap", 1], ["consume", 1]]
        # supplied functions of entries
        for ch in rng.sample(chains, min(len(chains), 400 if c.thorough else 60 if n < 40 else 20)):
            spots = [i for i, x in enumerate(ch["steps"]) if x[0] in FUSES]
            k, content, steps = entry_ops(c, n, ch, rng.choice(spots))
            mo += [stage_map(rng, 1, content, n), ["adopt", 1], ["entry", 1, k, steps]] + rng.sample(after_m, 3) + [["snap", 1]]
            # again, without the panic
            mo += [["entry", 1, k, [[a, b, 0] for a, b, _ in steps]], ["snap", 1]]
        # sources of elements
        for _ in range(30 if c.thorough else 8):
            lst = [[gen.hot(rng, n), v(rng)] for _ in range(rng.randint(1, 6))]
            at = rng.randint(1, len(lst) + 1)
            mo += [stage_map(rng, 1, {lst[0][0]: 3}, n), ["adopt", 1], ["from", 2, lst, rng.randint(0, 3), at], ["snap", 1], ["from", 2, lst, 0], ["snap", 2], ["drop", 2]]
            so += [stage_set(rng, 1, [lst[0][0]], n), ["adopt", 1], ["from", 2, [x[0] for x in lst], rng.randint(0, 3), at], ["snap", 1], ["from", 2, [x[0] for x in lst], 0], ["snap", 2], ["drop", 2]]
        # folds, cloning
        for s in rng.sample(subs, min(len(subs), 8)):
            for kind in ("iter", "keys", "values", "iter_mut", "values_mut", "ref", "ref_mut"):
                at = rng.randint(1, len(s))
                pre = [[rng.choice(["next", "back"]), 0]] * rng.randint(0, min(2, len(s) - at))
                mo += [stage_map(rng, 1, distinct_vals(rng, s), n), ["adopt", 1], ["iter", 1, kind, pre + [[rng.choice(["fold", "rfold"]), 0, at]]], ["snap", 1], ["iter", 1, kind, [["collect", 0]]]]
            mo += rng.sample(after_m, 2)
            mo += [["clone", 1, 2, rng.randint(1, len(s))], ["snap", 1], ["clone", 1, 2], ["snap", 2], ["drop", 2]]
            for kind in ("iter", "ref"):
                at = rng.randint(1, len(s))
                so += [stage_set(rng, 1, s, n), ["adopt", 1], ["iter", 1, kind, [[rng.choice(["fold", "rfold"]), 0, at]]], ["snap", 1], ["iter", 1, kind, [["collect", 0]]]]
            so += [["clone", 1, 2], ["inter", 1, 2, [["fold", 0, rng.randint(1, len(s))]]], ["snap", 1], ["snap", 2], ["inter", 1, 2, [["collect", 0]]]]
        ms.append({"ty": name, "cont": "map", "ops": mo})
        ss.append({"ty": name, "cont": "set", "ops": so})
    c.conform(split(ms, 400), "TraceMap", "panic")
    c.conform(split(ss, 400), "TraceSet", "setpanic")
    wild(c, maps=["panic", "panic"], sets=["panic", "panic"])


# ------------------------------------------------------------------ C15
ARRAYS = (130, 65, 30, 17, 16, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0)  # array sizes the harness knows


def c15(c):
    out = c.model("BuildModel", "SPECIFICATION Spec\nCONSTANTS NK=3 NV=2 MaxLen=%d\nINVARIANTS LawInserts LawLast LawOnly LawSet\nCONSTRAINT EmitT\nCHECK_DEADLOCK FALSE\n" % (4 if c.thorough else 3),
                  "all short sequences: building equals inserting in order", workers=1)
    lists = gen.printed(out)
    types = all_types(c)
    c.build(types, ["m_core", "m_build", "m_cmp", "s_core", "s_build", "s_cmp"])
    rng = c.rng
    ms, ss = [], []
    for name, t in types.items():
        n = sz(t)
        mo, so = [["from", 1, [], 0], ["snap", 1], ["empty", 1]], [["from", 1, [], 0], ["snap", 1], ["array", 2, []], ["snap", 2], ["empty", 2]]
        if n:
            cnt = len(lists) if c.thorough and n < 40 else 60 if n < 40 else 20
            for x in rng.sample(lists, min(cnt, len(lists))):
                pick = (rng.sample(range(1, n + 1), min(3, n)) * 3)[:3]
                val = [v(rng), v(rng)]
                lst = [[pick[k - 1], val[w - 1]] for k, w in x]
                h = rng.randint(0, 3)
                mo += [["from", 1, lst, h], ["snap", 1], ["len", 1]]
                ks = [k for k, _ in lst]
                so += [["from", 1, ks, h], ["snap", 1], ["len", 1], ["array", 2, ks], ["snap", 2], ["eq", 1, 2]]
                if rng.random() < 0.3:
                    # the same by inserting one after the other
                    mo += [["new", 2]] + [["insert", 2, k, w] for k, w in lst] + [["eq", 1, 2]]
                    so += [["new", 3]] + [["insert", 3, k] for k in ks] + [["eq", 1, 3]]
            for _ in range(30 if c.thorough else 8):
                ln = rng.choice([4, 7, 8, 9, 16, 17, 30, 65, 130])
                lst = [[gen.hot(rng, n), v(rng)] for _ in range(ln)]
                if rng.random() < 0.5:
                    lst = [[k, v(rng)] for k in rng.sample(range(1, n + 1), n)]
                mo += [["from", 1, lst, rng.randint(0, 3)], ["snap", 1], ["len", 1]]
                ks = [k for k, _ in lst]
                so += [["from", 1, ks, rng.randint(0, 3)], ["snap", 1], ["len", 1], ["array", 2, ks[:next(z for z in ARRAYS if z <= len(ks))]], ["snap", 2], ["len", 2]]
        ms.append({"ty": name, "cont": "map", "ops": mo})
        ss.append({"ty": name, "cont": "set", "ops": so})
    c.conform(ms, "TraceMap", "build")
    c.conform(ss, "TraceSet", "setbuild")
    wild(c, maps=["build"], sets=["build"])


# ------------------------------------------------------------------ C17
def c17(c):
    out = c.model("WriteModel", "SPECIFICATION Spec\nCONSTANTS NK=3 MaxTake=3\nINVARIANTS LawTarget LawOthers LawOrder\nCONSTRAINT EmitT\nCHECK_DEADLOCK FALSE\n",
                  "writing through any of several references taken from both ends", workers=1)
    plans = gen.printed(out)
    types = all_types(c)
    c.build(types, ["m_core", "m_iter", "m_entry", "m_retain"])
    rng = c.rng
    ms = []
    for name, t in types.items():
        n = sz(t)
        if n == 0:
            continue
        ops = []
        subs = [s for s in subsets(c, n, 4, 10) if s]
        for s in subs:
            # lookups, hit and miss
            ops += [stage_map(rng, 1, distinct_vals(rng, s), n), ["adopt", 1]]
            for _ in range(4):
                k = rng.choice(s) if rng.random() < 0.7 else gen.hot(rng, n)
                ops += [["getmut", 1, k, v(rng)], ["snap", 1]]
            ops += [["views", 1], ["views", 1, "mut"]]
        for p in rng.sample(plans, min(len(plans), len(plans) if c.thorough else 60 if n < 40 else 16)):
            s = sorted(rng.sample(range(1, n + 1), min(n, 3 if rng.random() < 0.5 else rng.randint(3, max(3, min(n, 9))))))
            kind = rng.choice(["iter_mut", "values_mut", "ref_mut"])
            st, got = [], 0
            for x in p:
                if x[0] == "write":
                    st.append(["write", 0, x[1] - 1, v(rng)])
                else:
                    st.append([x[0], 0])
            ops += [stage_map(rng, 1, distinct_vals(rng, s), n), ["adopt", 1], ["iter", 1, kind, st], ["snap", 1]]
            if rng.random() < 0.4:
                ops += [["views", 1]]
        # everything held at once, written in any order
        for s in subs:
            for kind in ("iter_mut", "values_mut", "ref_mut"):
                m = min(len(s), 24)
                take = [[rng.choice(["next", "back"]), 0] for _ in range(m)]
                if rng.random() < 0.3:
                    take.insert(rng.randrange(len(take) + 1), [rng.choice(["nth", "nthb"]), 0, 1])
                wr = [["write", 0, i, v(rng)] for i in rng.sample(range(m), rng.randint(1, m))]
                ops += [stage_map(rng, 1, distinct_vals(rng, s), n), ["adopt", 1], ["iter", 1, kind, take + wr], ["snap", 1], ["views", 1]]
            k = rng.choice(s)
            ops += [["entry", 1, k, [["match", 0, 0], ["get_mut", v(rng), 0], ["into_mut", 0, 0], ["write", v(rng), 0]]], ["snap", 1]]
            ops += [["entry", 1, gen.hot(rng, n), [["or_insert", v(rng), 0], ["write", v(rng), 0]]], ["snap", 1]]
            ops += [["retain", 1, {str(q): [1, rng.choice([0, v(rng)])] for q in range(1, n + 1)}], ["snap", 1]]
        ms.append({"ty": name, "cont": "map", "ops": ops})
    c.conform(split(ms, 400), "TraceMap", "write")
    wild(c, maps=["write", "write"])


# ------------------------------------------------------------------ C18
def c18(c):
    c.model("RetainModel", "SPECIFICATION Spec\nCONSTANTS NK=3\nINVARIANTS LawExact LawOnceEach LawNever LawWrites\nCHECK_DEADLOCK FALSE\n",
            "filtering all small maps with all predicates, all visiting orders")
    storage(c, ["retain"], 1, 5, 150 if c.thorough else 50, 8 if c.thorough else 7, "filtering, tree by tree")
    types = all_types(c)
    c.build(types, ["m_core", "m_retain", "m_iter", "s_core", "s_retain", "s_iter"])
    rng = c.rng
    ms, ss = [], []
    for name, t in types.items():
        n = sz(t)
        mo, so = [], []
        subs = subsets(c, n, 4, 20 if c.thorough else 10)
        for s in subs:
            decs = [[1] * n, [0] * n, [i % 2 for i in range(n)]] + [[rng.randint(0, 1) for _ in range(n)] for _ in range(6 if c.thorough else 3)]
            if len(s) <= 3:
                decs = []
                for bits in range(1 << len(s)):
                    d = [rng.randint(0, 1) for _ in range(n)]
                    for i, k in enumerate(s):
                        d[k - 1] = bits >> i & 1
                    decs.append(d)
            for d in decs:
                wr = rng.random() < 0.5
                mo += [stage_map(rng, 1, distinct_vals(rng, s), n), ["adopt", 1],
                       ["retain", 1, {str(k): [d[k - 1], v(rng) if wr and rng.random() < 0.6 else 0] for k in range(1, n + 1)}], ["snap", 1], ["len", 1], ["views", 1]]
                so += [stage_set(rng, 1, s, n), ["adopt", 1], ["retain", 1, {str(k): d[k - 1] for k in range(1, n + 1)}], ["snap", 1], ["len", 1], ["views", 1]]
                if rng.random() < 0.3:
                    d2 = [rng.randint(0, 1) for _ in range(n)]
                    mo += [["retain", 1, {str(k): [d2[k - 1], 0] for k in range(1, n + 1)}], ["snap", 1]]
                    so += [["retain", 1, {str(k): d2[k - 1] for k in range(1, n + 1)}], ["snap", 1]]
        # after a history of other operations
        for _ in range(6 if c.thorough else 2):
            mo.append(["new", 1])
            so.append(["new", 1])
            for _ in range(20):
                if not n:
                    break
                k = gen.hot(rng, n)
                mo.append(rng.choice([["insert", 1, k, v(rng)], ["insert", 1, k, v(rng)], ["remove", 1, k],
                                      ["retain", 1, {str(q): [rng.randint(0, 3) > 0, 0] for q in range(1, n + 1)}]]))
                so.append(rng.choice([["insert", 1, k], ["insert", 1, k], ["remove", 1, k],
                                      ["retain", 1, {str(q): int(rng.randint(0, 3) > 0) for q in range(1, n + 1)}]]))
            mo.append(["snap", 1])
            so.append(["snap", 1])
        for op in mo:
            if op[0] == "retain":
                op[2] = {k: [int(x[0]), x[1]] for k, x in op[2].items()}
        ms.append({"ty": name, "cont": "map", "ops": mo})
        ss.append({"ty": name, "cont": "set", "ops": so})
    c.conform(split(ms, 400), "TraceMap", "retain")
    c.conform(split(ss, 400), "TraceSet", "setretain")
    wild(c, maps=["retain"], sets=["retain"])


# ------------------------------------------------------------------ C19
FOOT = ["new", "insert", "remove", "get", "get_mut", "contains", "clear", "retain", "entry_or", "entry_occ", "entry_key", "iter", "keys", "values", "iter_mut",
        "values_mut", "into_iter", "len", "clone", "eq", "cmp", "hash", "rev", "debug", "collect", "find", "ser", "de", "s_new", "s_insert", "s_remove",
        "s_contains", "s_clear", "s_retain", "s_iter", "s_into_iter", "s_len", "s_inter", "s_inter_all", "s_clone", "s_eq", "s_cmp", "s_hash", "s_rev",
        "s_raw", "s_debug", "s_collect", "s_array", "s_ser", "s_de"]


def c19(c):
    c.model("FootLaws", "SPECIFICATION Spec\nINVARIANTS LawFits LawSmallest LawMonotone LawExact\nCHECK_DEADLOCK FALSE\n", "which sizes Footprint admits")
    rng = c.rng
    types = {k: t for k, t in keys.catalogue().items() if not keys.has_dyn(t) and sz(t) > 0}
    for i in range(40 if c.thorough else 12):
        t = keys.rand_type(rng, "F%d" % i, depth=rng.choice([1, 2, 3]), dynamic=False)
        types[t["name"]] = t
    for n in (5, 6, 10, 12, 24, 48, 96, 120):
        types["U%d" % n] = keys.units(n)
        types["B%d" % n] = keys.units(n, bitset=True)
    c.build(types, ["m_foot", "m_view", "s_raw"])
    ses = []
    for name, t in types.items():
        n = sz(t)
        ops = []
        # fill up, every operation on the full and on the empty containers
        for k in range(1, n + 1):
            ops += [["insert", k], ["s_insert", k]]
        ops += [[o, gen.hot(rng, n)] for o in FOOT if o not in ("new", "clear", "s_new", "s_clear")]
        ops += [["clear", 1], ["s_clear", 1]] + [[o, gen.hot(rng, n)] for o in FOOT]
        for _ in range(1500 if c.thorough else 150):
            ops.append([rng.choice(FOOT + ["insert", "s_insert", "entry_or"] * 4), gen.hot(rng, n)])
        ses.append({"ty": name, "cont": "foot", "ops": ops})
        ses.append({"ty": name, "cont": "foot", "ops": ops, "big": True})
    c.conform(ses, "TraceFoot", "foot")


CHECKS.update({"C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C17": c17, "C18": c18, "C19": c19})
