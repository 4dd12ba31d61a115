"""Schedules of several processes on one file.  No oracle: only steers.
A name which was being written when its process was killed is only read from then on."""
import random
from harness import History
import gen_store as gs
NM = ["/a/b/c//e/%s/" % x for x in ("F1", "F2", "long f part number three", "F4", "F5")]
COLL = ["/C/AQAQ/H///V/", "/C/B2B2/H///V/", "/C/AQB2/H///V/", "/C/B2AQ/H///V/"]
def history(seed, kind="sched", ncmd=14):
    r = random.Random("mp%s%s" % (kind, seed)); L = []
    np = r.choice([2, 2, 2, 3]); acc = [r.choice([0, 2, 2]) for _ in range(np)]
    if r.random() < .3: acc = [0] * np
    names = r.sample(COLL, 3) if r.random() < .3 else r.sample(NM, r.choice([2, 3, 4]))
    extra = ["/a/b/c//e/X%d/" % i for i in range(3)]
    hs = r.choice([0, 0, 2, 8]); bs = r.choice([100, 150]) if hs else 0
    ty = 300
    A = lambda *a: L.append(a)
    A("P", 0, "open", 0, "@F.dss", acc[0], 0, hs, bs, 0); A("W", 0)
    for _ in range(r.choice([0, 1, 3])): A("P", 0, *put(r, r.choice(names), ty)); A("W", 0)
    for p in range(1, np):
        A("P", p, "open", 0, "@F.dss", acc[p], 0, 0, 0, 0)
        if r.random() < .7: A("W", p)
        else: A("S", p, r.randrange(1, 12))
    busy = {}; lost = set(); pend = {}; n = 0; shots = r.choice([1, 1, 2]) if kind != "sched" else 0; mode = r.choice(["fine", "coarse", "one"])
    while n < ncmd:
        p = r.randrange(np)
        if not busy.get(p):
            n += 1; k = r.random(); x = gs.rcase(r, r.choice(names)); y = gs.rcase(r, r.choice(names + extra))
            if k < .42: c = put(r, x, ty)
            elif k < .58: c = ("get", 0, x)
            elif k < .70: c = ("del", 0, x)
            elif k < .76: c = ("ren", 0, x, y) if x.upper() != y.upper() else ("get", 0, x)
            elif k < .82: c = ("dup", 0, x, y) if x.upper() != y.upper() else ("get", 0, x)
            elif k < .86: c = ("undel", 0, x)
            elif k < .90: c = ("cat", 0, 0, 0, 0, 0, "")
            elif k < .93: c = ("chk", 0, x)
            elif k < .96: c = ("cnt", 0)
            else: c = ("close", 0)
            if kind != "sched" and c[0] in ("undel",): c = ("get", 0, x)
            if c[0] not in ("get", "chk", "cat", "cnt", "close") and {z.upper() for z in c[2:4] if isinstance(z, str)} & lost: c = ("get", 0, x)
            A("P", p, *c); busy[p] = True
            pend.setdefault(p, set()).update(z.upper() for z in c[2:4] if isinstance(z, str) and c[0] not in ("get", "chk", "cat", "cnt", "close"))   # it may still be busy with an earlier one
            if c[0] == "close": A("W", p); A("P", p, "open", 0, "@F.dss", acc[p], 0, 0, 0, 0); A("W", p); busy[p] = False; continue
            if shots and c[0] in ("put", "del", "ren", "dup") and r.random() < .25:
                shots -= 1; A("S", p, r.randrange(1, 40)) if r.random() < .8 else None
                if kind == "crash":
                    lost |= pend[p]; pend[p] = set()
                    A("K", p)
                    busy[p] = False; A("P", p, "open", 0, "@F.dss", acc[p], 0, 0, 0, 0); A("W", p); continue
                if r.random() < .3:
                    A("X", p, r.choice(["enospc", "eio", "short"]), "h"); lost |= pend[p]
                else: A("X", p, r.choice(["enospc", "eio", "short"]))
                A("W", p); busy[p] = False; continue
        if mode == "one" and r.random() < .6: A("W", p); busy[p] = False
        elif r.random() < .3: A("W", p); busy[p] = False
        else: A("S", p, r.choice([1, 2, 3, 5]) if mode == "fine" else r.randrange(1, 40))
        # the controller ignores commands to a busy process; forget about who may have ended
        if r.random() < .4: busy[p] = False
    for p in range(np): A("W", p)
    for p in range(np): A("W", p)
    for x in names: A("P", 0, "get", 0, x); A("W", 0)
    for p in range(np): A("P", p, "close", 0); A("W", p)
    A("P", 0, "open", 0, "@F.dss", 0, 0, 0, 0, 0); A("W", 0); A("P", 0, "cat", 0, 0, 0, 0, 0, ""); A("W", 0)
    for x in names + extra: A("P", 0, "get", 0, x); A("W", 0)
    A("P", 0, "cnt", 0); A("W", 0); A("P", 0, "zcheck", 0); A("W", 0); A("P", 0, "close", 0); A("W", 0)
    return History("mp-%s-%s" % (kind, seed), L)
def put(r, p, ty):
    c = list(gs.put(r, 0, p)); c[3] = ty; return tuple(c)
