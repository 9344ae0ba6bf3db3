#!/usr/bin/env python3
"""Tests of the machinery itself (no check depends on it).

  selftest.py models          every mutant of a specification below must be rejected by the models of its property
  selftest.py traces [Cxx..]  corrupted copies of accepted traces must be rejected

Mutants and corruptions that survive are listed; exit 1 if there are unexpected ones."""
import json, os, random, re, shutil, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

# property, module, what is written, what is written instead
MUTANTS = [
    ("C01", "StorageTree", 'Path(t.f[v], k - Off(t.f, v))', 'Path(t.f[v], Min({Size(t.f[v]), k}))'),
    ("C01", "StorageTree", 'ELSE <<"table", (p[1] :> v) @@ s[2]>>', 'ELSE <<"table", s[2] @@ (p[1] :> v)>>'),
    ("C01", "StorageTree", 'Cardinality(DOMAIN s[2])\n      [] s[1] = "option" -> SLen(s[2]) + Bit(s[3] # Absent)', 'Cardinality(DOMAIN s[2])\n      [] s[1] = "option" -> SLen(s[2])'),
    ("C01", "StorageTree", 'SIsEmpty(s[2]) /\\ s[3] = Absent', 'SIsEmpty(s[2])'),
    ("C01", "FixedMap", 'Clear(o) == Only(maps\' = [maps EXCEPT ![o] = EmptyMap])', 'Clear(o) == Idle'),
    ("C01", "FixedMap", 'k \\in Keys /\\ r = maps[o][k] /\\ Idle', 'k \\in Keys /\\ r = Absent /\\ Idle'),
    ("C02", "FixedSet", 'r = (k \\notin sets[o]) /\\ Only', 'r = (k \\in sets[o]) /\\ Only'),
    ("C03", "FixedMap", 'MapIsEmpty(o, r) == r = (Dom(maps[o]) = {})', 'MapIsEmpty(o, r) == r = (Dom(maps[o]) # {})'),
    ("C05", "KeySpace", 'r \\o <<MaxOf(r) + 1>>', '<<1>> \\o [i \\in 1..Len(r) |-> r[i] + 1]'),
    ("C05", "StorageTree", 'IF y[1] = 0 THEN first ELSE', 'IF y[1] # 0 THEN first ELSE'),
    ("C06", "StorageTree", 'BwdMulti(t, <<"multi", c[2], Max({c[3] - 1, c[2]}), f>>)', 'BwdMulti(t, <<"multi", c[2], Max({c[3] - 1, c[2] + 1}), f>>)'),
    ("C06", "StorageTree", 'IF ~(c[2] < c[3]) THEN {<<0, c>>}\n    ELSE LET i == c[2] + 1', 'IF ~(c[2] + 1 < c[3]) THEN {<<0, c>>}\n    ELSE LET i == c[2] + 1'),
    ("C06", "StorageTree", '<<"flat", Min(hits) + 1, hi, c[4]>>', '<<"flat", Min(hits), hi, c[4]>>'),
    ("C06", "StorageTree", '<<0, IF c[3] < c[2] THEN 0 ELSE c[3] - c[2] + 1>>', '<<0, IF c[3] < c[2] THEN 0 ELSE c[3] - c[2]>>'),
    ("C06", "StorageTree", '[] c[1] = "multi" -> <<0, -1>>', '[] c[1] = "multi" -> <<0, c[3] - c[2]>>'),
    ("C06", "FixedSet", 'Dry(j) == ', 'Dry(j) == FALSE /\\ '),
    ("C07", "FixedMap", 'OccRemove(r)    == ent.st = "occ" /\\ r = Cell /\\ SetCell(Absent)', 'OccRemove(r)    == ent.st = "occ" /\\ r = Cell /\\ SetCell(r)'),
    ("C07", "FixedMap", "r = (IF Cell = Absent THEN v ELSE Cell) /\\ r # Absent", "r = v /\\ r # Absent"),
    ("C08", "Ownership", "dropped' = dropped \\cup ((Held \\cup next..(next + n - 1)) \\ (Held' \\cup handed))", "dropped' = dropped \\cup ((Held \\cup next..(next + n - 1)) \\ handed)"),
    ("C09", "FixedMap", "SameContent(o, o2) == maps[o] = maps[o2]", "SameContent(o, o2) == Dom(maps[o]) = Dom(maps[o2])"),
    ("C09", "FixedMap", "\\A k \\in Keys : maps[o][k] # Odd", "TRUE"),
    ("C09", "StorageTree", "SEq(a[2], b[2]) /\\ a[3] = b[3]", "SEq(a[2], b[2])"),
    ("C10", "ContainerOrder", "IF i > Len(b) THEN 0 ELSE -1", "IF i > Len(b) THEN 0 ELSE 1"),
    ("C10", "ContainerOrder", "IF p[1] # q[1] THEN CmpNum(p[1], q[1]) ELSE", ""),
    ("C10", "ContainerOrder", "~total /\\ (x = NaN \\/ y = NaN)", "~total /\\ x = NaN"),
    ("C11", "BitsetStorage", "bits' = Mask(raw) /\\ Keep", "bits' = raw /\\ Keep"),
    ("C12", "FixedSet", "sets[o] \\cap sets[o2]", "sets[o] \\cup sets[o2]"),
    ("C13", "FixedMap", "ok = ~mal", "ok = TRUE"),
    ("C14", "FixedMap", "IF k \\notin Visited(vis) THEN p[k] = m[k]", "IF k \\notin Visited(vis) THEN p[k] \\in {Absent, m[k]}"),
    ("C15", "FixedMap", "Build([m EXCEPT ![s[i][1]] = s[i][2]], s, i + 1)", "Build([m EXCEPT ![s[i][1]] = IF @ = 0 THEN s[i][2] ELSE @], s, i + 1)"),
    ("C17", "FixedMap", "![its[j].got[i]] = w]]", "![its[j].got[1]] = w]]"),
    ("C18", "FixedMap", "VisitOf(vis, k)[3] = 1 THEN VisitOf(vis, k)[4] ELSE Absent]])", "VisitOf(vis, k)[3] = 0 THEN VisitOf(vis, k)[4] ELSE Absent]])"),
    ("C18", "StorageTree", "THEN <<Absent, <<>>>>\n                   ELSE <<IF k \\in keep", "THEN <<Absent, <<>>>>\n                   ELSE <<IF k \\notin keep"),
    ("C19", "Footprint", "n <= 8", "n < 8"),
    ("C20", "Capability", 'IF HasDyn(T) THEN {} ELSE vc \\cap {"Copy"})\n    \\cup (IF Flat', 'vc \\cap {"Copy"})\n    \\cup (IF Flat'),
    ("C20", "Capability", 'Flat(T) == T.t = "units"', 'Flat(T) == ~HasDyn(T)'),
    ("C20", "Capability", 'RefMay(T, vc)   == Caps \\ (IF "Sync"', 'RefMay(T, vc)   == Caps \\ (IF "Send"'),
    ("C20", "Capability", 'MutMay(T, vc)   == Caps \\ ({"Clone", "Copy"} \\cup', 'MutMay(T, vc)   == Caps \\ ({"Copy"} \\cup'),
    ("C20", "Capability", 'Keeps[a] = "shared" -> IF Needs[b] = "shared"', 'Keeps[a] = "shared" -> IF Needs[b] # "all"'),
    ("C20", "Capability", 'for_mut |-> "own", retain |-> "none"', 'for_mut |-> "none", retain |-> "own"'),
    ("C20", "Capability", '(HasDyn(T) => "hashbrown" \\in on) /\\ (serde', '(HasDyn(T) => on # {}) /\\ (serde'),
]


def models():
    from vk import core

    class Stop(Exception):
        pass

    def stop(*a, **k):
        raise Stop

    core.Check.build = stop
    from vk import caps, derive, props, props2
    caps.probe_crate = stop
    bad = 0
    for pid, mod, old, new in MUTANTS:
        d = tempfile.mkdtemp(prefix="selftest-")
        try:
            for f in os.listdir(HERE + "/spec"):
                if f.endswith(".tla"):
                    shutil.copy(HERE + "/spec/" + f, d)
            p = os.path.join(d, mod + ".tla")
            s = open(p).read()
            if s.count(old) < 1:
                print("STALE    %s %s: %r" % (pid, mod, old[:60]))
                bad += 1
                continue
            open(p, "w").write(s.replace(old, new, 1))
            core.SPEC = d
            c = core.Check(pid, "x")
            c.log = lambda *a: None
            try:
                props.CHECKS[pid](c)
                res = "ended"
            except Stop:
                res = "SURVIVED"
            except core.ToolError as e:
                m = re.search(r"model (\w+) is not satisfied", str(e))
                res = "rejected by " + m.group(1) if m else "TOOL " + str(e)[:200]
                why = re.search(r"Error: (.*)", str(e))
                res += " (%s)" % why.group(1)[:70] if why else ""
            if not res.startswith("rejected"):
                bad += 1
            print("%-60s %s %s: %s" % (res, pid, mod, new[:60].replace("\n", " ")), flush=True)
        finally:
            shutil.rmtree(d)
    return bad


def corrupt(rng, e):
    """A copy of the event with one answer changed, or None."""
    e = json.loads(json.dumps(e))
    fields = [k for k in e if k not in ("e", "s", "o", "o2", "j", "j2", "T", "ty", "kind", "how", "at", "cap", "src", "sz", "lk")]
    # (arguments, and readings that become the state, are not answers)
    fields = [k for k in fields if k not in ("k", "v", "c", "w") and (e["e"], k) != ("it_hint", "hi") and e["e"] != "adopt"]
    if not fields:
        return None
    k = rng.choice(fields)
    x = e[k]
    if isinstance(x, bool):
        e[k] = not x
    elif isinstance(x, int):
        e[k] = x + rng.choice([1, 2])
    elif isinstance(x, list) and x:
        i = rng.randrange(len(x))
        if rng.random() < 0.5:
            del x[i]
        elif isinstance(x[i], int):
            x[i] += 1
        elif isinstance(x[i], list) and x[i] and isinstance(x[i][-1], int):
            x[i][-1] += 1
        else:
            return None
    else:
        return None
    return e, k


def traces(pids):
    """Accepted traces with one corrupted or missing event: how many are rejected?"""
    from vk import core
    from vk import caps, derive, props, props2
    stats = {}
    orig = core.Check.validate
    rng = random.Random(7)

    def validate(self, trace, module):
        r = orig(self, trace, module)
        if r[0] is None and len(stats.setdefault((self.pid, module), [])) < 40:
            lines = open(trace).read().splitlines()
            for _ in range(6):
                for _ in range(50):
                    i = rng.randrange(len(lines))
                    e = json.loads(lines[i])
                    if e["e"] in ("begin", "eof"):
                        continue
                    c = corrupt(rng, e)
                    if c:
                        break
                else:
                    continue
                # (the session alone)
                a = max(x for x in range(i + 1) if '"e":"begin"' in lines[x])
                b = next((x for x in range(i + 1, len(lines)) if '"e":"begin"' in lines[x]), len(lines))
                p = trace + ".bad"
                open(p, "w").write("\n".join(lines[a:i] + [json.dumps(c[0])] + lines[i + 1:b]) + "\n")
                try:
                    bad = orig(self, p, module)[0]
                except core.ToolError as x:
                    bad = "tool"
                stats[(self.pid, module)].append((bad is not None, e["e"], c[1], lines[i][:200], json.dumps(c[0])[:200]))
                os.remove(p)
        return r

    core.Check.validate = validate
    for p in pids:
        core.run(p, props.CHECKS[p])
    for k, v in stats.items():
        n = sum(x[0] for x in v)
        print("%s %s: %d of %d corrupted traces rejected" % (k[0], k[1], n, len(v)))
        for x in v:
            if not x[0]:
                print("   accepted: %s, field %s: %s -> %s" % x[1:])
    return 0


if __name__ == "__main__":
    what = sys.argv[1]
    sys.exit(1 if (models() if what == "models" else traces(sys.argv[2:])) else 0)
