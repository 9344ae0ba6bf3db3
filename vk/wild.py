"""Long histories of any operations in any order, on key types of every kind, added to the checks of most properties:
a property of every reachable state, or of every call, is also looked at in the middle of everything else."""
from . import gen, keys
from .props import rand_types, stage_map, stage_set, subsets, sz

MAPF = ["m_core", "m_iter", "m_retain", "m_entry", "m_build", "m_cmp", "m_serde"]
SETF = ["s_core", "s_iter", "s_retain", "s_build", "s_cmp", "s_serde", "s_inter", "s_raw"]
NAMES = ["U3", "B3", "U9", "B9", "B33", "bool", "one", "oobool", "oB3", "k_u32", "k_slice", "ou32", "CUBU", "CBB", "CN", "CX", "CW", "CBN", "CDEEP", "CDB", "CE"]
CHAINS = [[["or_insert", 1]], [["or_insert_with", 1], ["write", 1]], [["or_insert_with_key", 1]], [["or_default", 1], ["write", 1]], [["key", 0], ["match", 0], ["key", 0]],
          [["and_modify", 1], ["or_insert", 1]], [["match", 0], ["insert", 1]], [["match", 0], ["insert", 1], ["remove", 0]], [["match", 0], ["get", 0], ["remove", 0]],
          [["match", 0], ["get_mut", 1], ["get", 0], ["insert", 1]], [["match", 0], ["get_mut", 1], ["into_mut", 0], ["write", 1]], [["and_modify", 1], ["match", 0]], []]


class Keys:
    """Keys near the ones used last."""

    def __init__(self, rng, n):
        self.rng, self.n, self.last = rng, n, [1, n]

    def __call__(self):
        rng, n = self.rng, self.n
        x = rng.random()
        k = rng.choice(self.last) if x < 0.3 else rng.choice(self.last) + rng.choice([-1, 1]) if x < 0.6 else gen.hot(rng, n)
        k = min(n, max(1, k))
        self.last = (self.last + [k])[-4:]
        return k

    def lists(self, m):
        return [self() for _ in range(self.rng.randint(0, m))]


def walk(rng, writes):
    st = []
    for i in range(rng.randint(0, 6)):
        st.append([rng.choice(["next", "back", "next", "back", "nth", "nthb"]), 0, rng.randint(0, 2)])
        if rng.random() < 0.4:
            st.append(["hint", 0])
        if writes and rng.random() < 0.5:
            st.append(["write", 0, rng.randint(0, i), rng.randint(1, 99999)])
    end = [[["collect", 0]], [["rcollect", 0]], [["count", 0]], [["last", 0]], [["fold", 0, 0]], [["rfold", 0, 0]], []]
    return st + rng.choice(end)


def more_map(rng, n, key, what, counted):
    """One operation (with what belongs to it) of this sort."""
    o, o2 = rng.choice([(1, 2), (2, 1)])
    v = lambda: rng.randint(1, 99999)
    dec = lambda p: [[int(rng.random() < p), rng.choice([0, v()])] for _ in range(n)]
    bykey = lambda p: {str(i + 1): d for i, d in enumerate(dec(p))}
    if what == "core":
        x, k = rng.random(), key()
        return [["insert", o, k, v()] if x < 0.5 else ["remove", o, k] if x < 0.65 else ["getmut", o, k, rng.choice([0, v()])] if x < 0.8 else
                ["get", o, k] if x < 0.88 else ["contains", o, k] if x < 0.96 else ["clear", o]]
    if what == "write":
        return [["getmut", o, key(), v()], ["snap", o]] if rng.random() < 0.4 else [["iter", o, rng.choice(["iter_mut", "values_mut", "ref_mut"]), walk(rng, True)], ["snap", o]]
    if what == "view":
        return [["len", o], ["empty", o], rng.choice([["views", o], ["views", o, "mut"], ["debug", o], ["ord", o]])]
    if what == "order":
        return [["ord", o]] if rng.random() < 0.8 else [["clone", o, 3], ["consume", 3, 1]]
    if what == "iter":
        return [["iter", o, rng.choice(["iter", "keys", "values", "ref", "iter_mut", "values_mut"]), walk(rng, False)]]
    if what == "into":
        return [["clone", o, 3], ["iter", 3, "into", walk(rng, False)]]
    if what == "entry":
        fuse = rng.random() < 0.1
        st = []
        for name, val in rng.choice(CHAINS):
            st.append([name, v() if val else 0, int(fuse and name in ("or_insert_with", "or_insert_with_key", "or_default", "and_modify"))])
        return [["entry", o, key(), st]] + ([["snap", o]] if rng.random() < 0.3 else [])
    if what == "retain":
        return [["retain", o, bykey(rng.choice([0.3, 0.7, 0.9, 1.0])), 0], ["snap", o]]
    if what == "panic":
        x = rng.randrange(4)
        lst = [[k, v()] for k in key.lists(5)] + [[key(), v()]]
        return ([["retain", o, dec(0.7), rng.randint(1, 3)], ["snap", o]] if x < 2 else [["from", 3, lst, rng.randint(0, 3), rng.randint(1, len(lst))]] if x == 2 else
                [["iter", o, rng.choice(["iter", "keys", "iter_mut", "values"]), [[rng.choice(["fold", "rfold"]), 0, rng.randint(1, 2)]]], ["snap", o]])
    if what == "build":
        lst = [[k, v()] for k in key.lists(8)]
        return [["from", o, lst, rng.randint(0, 3), 0], ["snap", o]]
    if what == "cmp":
        x = rng.random()
        if x < 0.4:
            k = key()
            return [["clone", o, o2, 0, rng.randint(0, 1)], ["eq", 1, 2], ["hash", 1, 2], rng.choice([["insert", o2, k, v()], ["remove", o, k], ["getmut", o, k, v()]]), ["eq", 1, 2],
                    ["snap", 1], ["snap", 2]]
        return [["eq", 1, 2], ["eq", 2, 1], ["hash", 1, 2]]
    if what == "serde":
        x = rng.random()
        lst = [[k, v()] for k in key.lists(6)]
        if lst and rng.random() < 0.2:
            lst[rng.randrange(len(lst))] = rng.choice([[-1, 5], [key(), 0]])
        return ([["ser", o]] if x < 0.2 else [[rng.choice(["roundtrip", "jtrip", "wtrip"]), o, o2], ["eq", 1, 2], ["snap", o2]] if x < 0.6 else
                [["de", o, lst, rng.choice([-1, len(lst), 0, 9])], ["new", 3], ["snap", o]])
    raise ValueError(what)


def more_set(rng, n, key, what, raw):
    o, o2 = rng.choice([(1, 2), (2, 1)])
    dec = lambda p: [int(rng.random() < p) for _ in range(n)]
    if what == "core":
        x, k = rng.random(), key()
        return [["insert", o, k] if x < 0.5 else ["remove", o, k] if x < 0.75 else ["contains", o, k] if x < 0.96 else ["clear", o]]
    if what == "view":
        return [["len", o], ["empty", o], rng.choice([["views", o], ["debug", o], ["ord", o]])]
    if what == "order":
        return [["ord", o]] if rng.random() < 0.8 else [["clone", o, 3], ["consume", 3, 1]]
    if what == "iter":
        return [["iter", o, rng.choice(["iter", "ref"]), walk(rng, False)]]
    if what == "into":
        return [["clone", o, 3], ["iter", 3, "into", walk(rng, False)]]
    if what == "retain":
        d = dec(rng.choice([0.3, 0.7, 0.9, 1.0]))
        return [["retain", o, {str(i + 1): x for i, x in enumerate(d)}], ["snap", o]]
    if what == "panic":
        x = rng.randrange(4)
        lst = key.lists(5) + [key()]
        return ([["retain", o, dec(0.7), rng.randint(1, 3)], ["snap", o]] if x < 2 else [["from", 3, lst, rng.randint(0, 3), rng.randint(1, len(lst))]] if x == 2 else
                [["iter", o, "iter", [[rng.choice(["fold", "rfold"]), 0, rng.randint(1, 2)]]], ["snap", o]])
    if what == "build":
        lst = key.lists(8)
        return [["from", o, lst, rng.randint(0, 3)] if rng.random() < 0.6 else ["array", o, lst], ["snap", o]]
    if what == "cmp":
        k = key()
        if rng.random() < 0.4:
            return [["clone", o, o2], ["eq", 1, 2], ["hash", 1, 2], rng.choice([["insert", o2, k], ["remove", o, k]]), ["eq", 1, 2], ["snap", 1], ["snap", 2]]
        return [["eq", 1, 2], ["eq", 2, 1], ["hash", 1, 2]]
    if what == "serde":
        x = rng.random()
        lst = key.lists(6)
        if lst and rng.random() < 0.2:
            lst[rng.randrange(len(lst))] = -1
        return ([["ser", o]] if x < 0.2 else [[rng.choice(["roundtrip", "jtrip", "wtrip"]), o, o2], ["eq", 1, 2], ["snap", o2]] if x < 0.6 else
                [["de", o, lst, rng.choice([-1, len(lst), 0, 9])], ["new", 3], ["snap", o]])
    if what == "inter":
        return [["inter", o, o2, rng.choice([[], [["next", 0]], [["hint", 0], ["next", 0], ["clone", 0], ["collect", 1]]]) + [["hint", 0], [rng.choice(["collect", "count", "last", "peek"]), 0]]]]
    if what == "raw":
        if not raw:
            return [["snap", o]]
        return [["raw", o]] if rng.random() < 0.6 else [["fromraw", o, sorted({k - 1 for k in key.lists(8)} | ({b for b in range(n, raw) if rng.random() < 0.3} if rng.random() < 0.5 else set()))], ["snap", o]]
    raise ValueError(what)


MAPS = ["core", "core", "core", "core", "core", "write", "view", "order", "iter", "into", "entry", "entry", "retain", "panic", "build", "cmp", "serde"]
SETS = ["core", "core", "core", "core", "core", "view", "order", "iter", "into", "retain", "panic", "build", "cmp", "serde", "inter", "raw"]


def session(rng, cont, n, length, focus, raw=0):
    key = Keys(rng, n)
    ops = [["new", 1], ["new", 2]]
    sorts = (MAPS if cont == "map" else SETS) + list(focus) * 4
    for i in range(length):
        w = rng.choice(sorts)
        ops += more_map(rng, n, key, w, False) if cont == "map" else more_set(rng, n, key, w, raw)
        if rng.random() < 0.1:
            # whatever failed or was used up is replaced
            ops.append(["new", rng.randint(1, 2)])
        if i % max(3, n // 3) == 0:
            ops += [["snap", 1], ["snap", 2]]
    return ops + [["snap", 1], ["snap", 2], ["len", 1], ["empty", 2]]


def neighbours(rng, cont, n):
    """Every key against the ones next to it: what is done to one is not done to the other."""
    ops = []
    ks = list(range(1, n + 1)) if n <= 40 else sorted({1, n} | set(rng.sample(range(1, n + 1), 20)))
    v = lambda: rng.randint(1, 99999)
    for k in ks:
        for x in {k - 1, k + 1, rng.randint(1, n)}:
            if not 1 <= x <= n or x == k:
                continue
            if cont == "map":
                ops += [stage_map(rng, 1, {x: v()}, n), ["adopt", 1]]
                ops += rng.sample([["entry", 1, k, [["or_insert", v(), 0]]], ["entry", 1, k, [["match", 0, 0], ["insert", v(), 0]]], ["insert", 1, k, v()], ["getmut", 1, k, v()],
                                   ["entry", 1, k, [["key", 0, 0], ["match", 0, 0], ["remove", 0, 0]]], ["remove", 1, k], ["contains", 1, k], ["get", 1, k]], 3)
                ops += [["snap", 1], ["insert", 1, k, v()], rng.choice([["entry", 1, k, [["match", 0, 0], ["remove", 0, 0]]], ["remove", 1, k], ["getmut", 1, k, v()],
                                                                       ["entry", 1, x, [["match", 0, 0], ["remove", 0, 0]]]]), ["snap", 1], ["len", 1]]
            else:
                ops += [stage_set(rng, 1, [x], n), ["adopt", 1]] + rng.sample([["insert", 1, k], ["remove", 1, k], ["contains", 1, k], ["contains", 1, x]], 3)
                ops += [["snap", 1], ["insert", 1, k], ["remove", 1, rng.choice([k, x])], ["snap", 1], ["len", 1]]
    return ops


def types_for(c, maps):
    cat = keys.catalogue()
    types = {k: cat[k] for k in NAMES}
    if maps:
        types.update(keys.kinds())
    else:
        types["Every"] = keys.everything("Every")
    types.update(rand_types(c, 12 if c.thorough else 3, "W"))
    return types


def wild(c, maps=None, sets=None):
    """maps, sets: what to do more often there (None: nothing there at all)."""
    types = types_for(c, maps is not None)
    c.build(types, (MAPF if maps is not None else []) + (SETF if sets is not None else []), tag="w")
    for cont, focus, module in (("map", maps, "TraceMap"), ("set", sets, "TraceSet")):
        if focus is None:
            continue
        ses = []
        for name, t in types.items():
            n = sz(t)
            if n < 1 or (cont == "set" and t.get("val") in keys.KINDS and name[1:] in keys.KINDS):
                continue
            raw = keys.raw_width(n) if t["t"] == "units" and t.get("bitset") else 0
            for _ in range(6 if c.thorough else 2):
                ses.append({"ty": name, "cont": cont, "ops": session(c.rng, cont, n, (250 if n < 20 else 100) if c.thorough else 90 if n < 20 else 40, focus, raw)})
            ses.append({"ty": name, "cont": cont, "ops": neighbours(c.rng, cont, n)})
        c.conform(ses, module, "wild" + cont)
