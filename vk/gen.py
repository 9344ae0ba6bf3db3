"""From TLC's labelled transitions to plans, and random plans."""
import json
from collections import deque

from . import keys


def printed(out):
    """The JSON lines printed by a generator module."""
    r = []
    for l in out.splitlines():
        if l.startswith('"{') or l.startswith('"['):
            r.append(json.loads(json.loads(l)))
    return r


def graph(ts):
    """{state: [(op, state)]} from printed transitions {f, op, t}."""
    g = {}
    for x in ts:
        f, t = json.dumps(x["f"]), json.dumps(x["t"])
        g.setdefault(f, [])
        g.setdefault(t, [])
        e = (tuple(json.dumps(o) for o in x["op"]), t)
        if e not in g[f]:
            g[f].append(e)
    return {f: [([json.loads(o) for o in op], t) for op, t in es] for f, es in g.items()}


def covering_walk(g, init, rng):
    """One walk from `init` that takes every transition at least once."""
    todo = {f: list(range(len(es))) for f, es in g.items()}
    for f in todo:
        rng.shuffle(todo[f])
    cur, walk = json.dumps(init), []
    left = sum(len(v) for v in todo.values())
    while left:
        if todo[cur]:
            i = todo[cur].pop()
            op, nxt = g[cur][i]
            walk.append(op)
            cur = nxt
            left -= 1
            continue
        # nearest state with an untaken transition
        prev, q, goal = {cur: None}, deque([cur]), None
        while q:
            x = q.popleft()
            if todo[x]:
                goal = x
                break
            for i, (op, t) in enumerate(g[x]):
                if t not in prev:
                    prev[t] = (x, i)
                    q.append(t)
        if goal is None:
            break
        path = []
        x = goal
        while prev[x] is not None:
            path.append(prev[x])
            x = prev[x][0]
        for x, i in reversed(path):
            walk.append(g[x][i][0])
        cur = goal
    return walk


def picks(rng, n, m, count):
    """`count` ways to pick m of the keys 1..n in random order, extremes first."""
    out = []
    if m > n:
        return out
    base = [1, n, max(1, n // 2), min(n, 2), max(1, n - 1)]
    first = []
    for k in base:
        if k not in first:
            first.append(k)
    for k in range(1, n + 1):
        if len(first) >= m:
            break
        if k not in first:
            first.append(k)
    first = first[:m]
    rng.shuffle(first)
    out.append(first)
    while len(out) < count:
        out.append(rng.sample(range(1, n + 1), m))
    return out


def hot(rng, n):
    """A key number, preferring the ends and byte boundaries."""
    if n > 6 and rng.random() < 0.5:
        c = [k for k in (1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, n - 1, n) if 1 <= k <= n]
        return rng.choice(c)
    return rng.randint(1, n)


def subset(rng, n):
    """A random set of keys, of varied density."""
    p = rng.choice([0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 1.0])
    s = [k for k in range(1, n + 1) if rng.random() < p]
    if n > 30 and len(s) > 24 and rng.random() < 0.6:
        s = sorted(rng.sample(s, 24))
    return s
