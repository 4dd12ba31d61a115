"""Covers every transition printed by a model (lines '@T {f,o,t}') with walks from the initial state."""
import json, collections, random
def parse(out):
    E = []
    for ln in out.splitlines():
        if ln.startswith('"@T '):
            E.append(json.loads(json.loads(ln)[3:]))
    return E
def walks(E, maxlen=70, seed=0, init=None, frac=1):
    """-> list of walks (list of ops). Every edge (of a random part `frac` of them) is taken at least once."""
    r = random.Random(seed); memo = {}
    def key(s):
        k = json.dumps(s, sort_keys=True); return memo.setdefault(k, len(memo))
    out = collections.defaultdict(list); n = 0
    for e in E:
        f, t = key(e["f"]), key(e["t"]); out[f].append((e["o"], t)); n += 1
    start = key(init) if init is not None else key(E[0]["f"])
    for k in out: r.shuffle(out[k])
    succ = {k: list({t: o for o, t in v}.items()) for k, v in out.items()}
    todo = {k: [i for i in range(len(v)) if frac >= 1 or r.random() < frac] for k, v in out.items()}
    left = n = sum(map(len, todo.values())); W = []; cur = start; w = []
    # distance-to-work search (BFS) from the current state
    def nearest(s):
        seen = {s: None}; q = collections.deque([s])
        while q:
            u = q.popleft()
            if todo.get(u): 
                path = []
                while seen[u] is not None: p, op = seen[u]; path.append((op, u)); u = p
                return path[::-1]
            for v, op in succ.get(u, ()):
                if v not in seen: seen[v] = (u, op); q.append(v)
        return None
    while left:
        if todo.get(cur) and len(w) < maxlen:
            i = todo[cur].pop(); op, t = out[cur][i]; left -= 1; w.append(op); cur = t; continue
        if len(w) < maxlen:
            p = nearest(cur)
            if p is not None and len(p) < 8 + (0 if w else 10**9):
                for op, v in p: w.append(op); cur = v
                continue
        W.append(w); w = []; cur = start
    if w: W.append(w)
    return W, n
