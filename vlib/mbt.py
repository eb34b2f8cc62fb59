"""Turns TLC's transition graph into paths that cover every transition."""
import json, random
from collections import deque


def key(s):
    return json.dumps(s, sort_keys=True)


def cover(inits, trans, rng, max_len=60, extra_random=0):
    """Returns list of paths; a path is (init_state, [(action, to_state), ...])."""
    out = {}
    for t in trans:
        out.setdefault(key(t["f"]), []).append((t["a"], t["t"], key(t["t"])))
    # dedupe
    for k in out:
        seen, l = set(), []
        for a, s, ks in out[k]:
            z = (key(a), ks)
            if z not in seen:
                seen.add(z)
                l.append((a, s, ks, len(l)))
        out[k] = l
    init_keys = []
    for i in inits:
        if key(i) not in [k for k, _ in init_keys]:
            init_keys.append((key(i), i))
    # BFS tree from inits
    parent = {}
    dq = deque()
    for k, i in init_keys:
        parent[k] = None
        dq.append(k)
    while dq:
        k = dq.popleft()
        for a, s, ks, idx in out.get(k, ()):
            if ks not in parent:
                parent[ks] = (k, idx)
                dq.append(ks)
    todo = set((k, e[3]) for k, es in out.items() for e in es if k in parent)
    total = len(todo)
    pending = {k: [e[3] for e in es] for k, es in out.items()}
    for k in pending:
        rng.shuffle(pending[k])
    init_state = {k: i for k, i in init_keys}

    def nearest(k, room):
        """shortest way from k to a state with a transition still to do"""
        seen, dq2 = {k: None}, deque([(k, 0)])
        while dq2:
            x, d = dq2.popleft()
            if d and any((x, i) in todo for i in pending.get(x, ())):
                way = []
                while seen[x] is not None:
                    way.append(seen[x])
                    x = seen[x][0]
                return way[::-1]
            if d >= min(room - 1, 8) or len(seen) > 400:
                continue
            for a, s, ks, idx in out.get(x, ()):
                if ks not in seen:
                    seen[ks] = (x, idx)
                    dq2.append((ks, d + 1))
        return None
    paths = []
    order = list(todo)
    order.sort()
    rng.shuffle(order)
    for (k0, i0) in order:
        if (k0, i0) not in todo:
            continue
        # path from init to k0
        seq = []
        k = k0
        while parent[k] is not None:
            pk, idx = parent[k]
            seq.append((pk, idx))
            k = pk
        root = k
        seq.reverse()
        seq.append((k0, i0))
        for e in seq:
            todo.discard(e)
        cur = out[k0][i0][2]
        while len(seq) < max_len:
            p = pending.get(cur, [])
            while p and (cur, p[-1]) not in todo:
                p.pop()
            if not p:
                hop = nearest(cur, max_len - len(seq))
                if not hop:
                    break
                seq += hop
                cur = out[hop[-1][0]][hop[-1][1]][2]
                continue
            idx = p.pop()
            todo.discard((cur, idx))
            seq.append((cur, idx))
            cur = out[cur][idx][2]
        paths.append((init_state[root], [(out[k][i][0], out[k][i][1]) for k, i in seq]))
    for _ in range(extra_random):
        k, i = rng.choice(init_keys)
        seq = []
        cur = k
        while len(seq) < max_len and out.get(cur):
            a, s, ks, idx = rng.choice(out[cur])
            seq.append((a, s))
            cur = ks
        paths.append((i, seq))
    return paths, total
