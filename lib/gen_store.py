"""Random histories of the record store.  The generator keeps no oracle: it only steers (which names probably exist)."""
import random, zlib
from harness import History, line

TYPES = [90, 300, 450, 600, 200]
PARTS = ["", "A", "RIVER", "Flow", "STAGE-A", "x y", "OBS", "Fort Worth", "1HOUR-Z", "b#1"]

def rcase(r, s):
    m = r.random()
    if m < .5: return s
    if m < .7: return s.lower()
    if m < .85: return s.upper()
    return "".join(c.upper() if r.random() < .5 else c.lower() for c in s)

def names(r, n, kind):
    out = []; seen = set()
    base = [r.choice(PARTS) for _ in range(6)]
    while len(out) < n:
        if kind == "hashcol":   # equal 64 bit path hashes, same length:  "AQ" and "B2" hash alike
            k = len(out); p = "/".join(["", "C", "".join(["AQ" if (k >> j) & 1 else "B2" for j in range(4)]), "H", "", "", "V", ""])
        elif kind == "long":
            p = "/" + "/".join("".join(r.choice("ABCDEFGHIJ KLMN-_") for _ in range(r.choice([1, 20, 60]))).strip() for _ in range(6)) + "/"
            p = p.replace("//", "/Q/")
            if p.count("/") != 7: continue
        else:
            b = list(base); b[r.choice([0, 1, 2, 5])] = r.choice(PARTS) + str(r.randrange(40)); 
            if r.random() < .5: b[5] = "V%d" % r.randrange(30)
            p = "/" + "/".join(b) + "/"
        if r.random() < .3 and kind == "short": p = p[:-1] + "-" + "L" * r.choice([8, 16, 30, 64]) + "/"
        if len(p) > 380: continue
        if p.upper() in seen: 
            if kind == "hashcol": break
            continue
        seen.add(p.upper()); out.append(p)
    return out

def size(r, big):
    m = r.random()
    if m < .2: return 0
    if m < .55: return r.randrange(1, 12)
    if m < .85: return r.randrange(12, 120)
    return r.randrange(120, 700 if big else 260)

ONE = [None]
def put(r, h, p, big=False):
    s = [size(r, big) if r.random() < q else 0 for q in (.4, .3, .4)] + [size(r, big), size(r, big) if r.random() < .4 else 0, size(r, big) if r.random() < .3 else 0]
    if r.random() < .25: s = [0, 0, 0, r.choice([0, 1, 2, 60, 250, 500, 900]), 0, 0]
    if sum(s) == 0: s[3] = 3
    nv = r.choice([s[3], 0, s[3] + 2]); 
    ty = ONE[0] if ONE[0] else TYPES[zlib.crc32(p.upper().encode()) % len(TYPES)] if r.random() < .93 else r.choice(TYPES)
    return ("put", h, p, ty, r.randrange(1, 10**6), *s, nv, nv + r.choice([0, 5]))

FILT = ["*", "*", "*", "", "exact", "pre", "suf", "mid"]
def filt(r, p):
    ps = p.split("/")[1:7]; out = []
    for t in ps:
        k = r.choice(FILT)
        if k == "exact" or (k in ("pre", "suf", "mid") and len(t) < 2): out.append(rcase(r, t))
        elif k == "pre": out.append(rcase(r, t[:r.randrange(1, len(t))]) + "*")
        elif k == "suf": out.append("*" + rcase(r, t[-r.randrange(1, len(t)):]))
        elif k == "mid": i = r.randrange(0, len(t)); out.append("*" + rcase(r, t[i:i + r.randrange(1, 4)]) + "*")
        else: out.append(k)
    return "/" + "/".join(out) + "/"

FOCUS = {"put": (0, .36), "del": (.48, .60), "ren": (.60, .66), "dup": (.66, .75), "alias": (.75, .80), "reopen": (.80, .84), "squeeze": (.84, .855), "cat": (.855, 1)}
def history(seed, n=60, feats=("del", "undel", "ren", "dup", "alias", "reopen", "multi", "squeeze", "cat"), big=None, focus=None):
    r = random.Random("store%s" % seed); L = []
    big = r.random() < .4 if big is None else big
    kind = r.choice(["short", "short", "long", "hashcol"])
    P = names(r, r.choice([3, 6, 10, 16]), kind); A = [P.pop() for _ in range(min(3, len(P) // 3))] if "alias" in feats and (r.random() < .5 or focus == "alias") else []
    hs = r.choice([0, 0, 2, 8, 64]); bs = 0
    acc = r.choice([0, 0, 0, 2, 3, 4])
    maxe = r.choice([0, 0, 50, 5000])
    if kind == "hashcol": hs = r.choice([2, 8])
    if hs: bs = r.choice([100, 150, 200])   # both are needed for either to take effect
    if hs and r.random() < .15: bs = 0
    L.append(("open", 0, "@F.dss", acc, maxe, hs, bs, 0))
    det = r.random() < .25 and hs != 2
    if det: L.append(("fset", 0, "detune", 1))
    if r.random() < .4:
        v = r.choice([1, 2, 3]); L.append(("fset", 0, "reclaim", v))
        # documented: "a deleted record cannot be undeleted in a file that uses space reclamation ... the data set may be bad"
        if v > 1: feats = tuple(f for f in feats if f != "undel")
    two = "multi" in feats and r.random() < .3
    if two: acc = 2; L[0] = ("open", 0, "@F.dss", acc, maxe, hs, bs, 0)
    if two: L.append(("open", 1, "@F.dss", acc, 0, 0, 0, 0))
    copy = r.choice(["rec", "file"]) if "dup" in feats and r.random() < (.8 if focus == "dup" else .35) else None
    ONE[0] = r.choice(TYPES) if copy == "file" else None
    if copy: L.append(("open", 2, "@F_b.dss", 0, 0, 0, 0, 0))
    hd = lambda: r.choice([0, 1]) if two else 0
    live = []
    anyp = lambda: rcase(r, r.choice(live if live and r.random() < .75 else P + A))
    for i in range(n):
        m = r.random(); h = hd()
        if focus and r.random() < .3: m = r.uniform(*FOCUS[focus])
        if m < .36 or not live:
            p = r.choice(live if live and r.random() < .4 else P); L.append(put(r, h, rcase(r, p), big))
            if p not in live: live.append(p)
        elif m < .48:
            if r.random() < .25: L.append(("getn", h, anyp()) + tuple(r.choice([0, 2, 3, 5, 8, 13, 51, 200, 1000]) for _ in range(6)))
            else: L.append(("get", h, anyp()))
        elif m < .56 and "del" in feats:
            p = r.choice(live if r.random() < .8 else P); L.append((r.choice(["del", "hdel"]), h, rcase(r, p)))
            if p in live: live.remove(p)
            if "undel" in feats and r.random() < .4:
                L.append(("cat", h, 0, 11, 0, 0, ""))
                L.append(("undelall", h) if r.random() < .3 else ("undel", h, p)); live.append(p)
        elif m < .60 and "undel" in feats: L.append(("undelall", h) if r.random() < .3 else ("undel", h, rcase(r, r.choice(P))))
        elif m < .66 and "ren" in feats:
            p = r.choice(live if r.random() < .9 else P); q = r.choice(P)
            if A and r.random() < .3: q = r.choice(A + P[:1])
            if A and r.random() < .1: p = r.choice(A)
            L.append(("ren", h, rcase(r, p), rcase(r, q)))
            if p in live and p != q: live.remove(p); 
            if q not in live: live.append(q)
        elif m < .71 and "dup" in feats:
            p = r.choice(live); q = r.choice(P)
            if q == p: continue
            L.append(("dup", h, rcase(r, p), rcase(r, q))) if r.random() < .5 else L.append(("cpy", h, h, rcase(r, p), rcase(r, q)))
            if q not in live: live.append(q)
        elif m < .75 and copy:
            L.append(("cpy", h, 2, anyp(), rcase(r, r.choice(P)))) if copy == "rec" or r.random() < .5 else L.append(("cpyfile", h, 2))
            L.append(("cat", 2, 0, 0, 0, 0, "")); L.append(("get", 2, anyp()))
        elif m < .80 and A:
            k = r.random()
            if k < .6: L.append(("aadd", h, anyp(), rcase(r, r.choice(A + P[:1]))))
            elif k < .75: L.append(("arem", h, rcase(r, r.choice(A))))
            elif k < .8: L.append(("aremall", h, anyp()))
            elif k < .9: L.append(("aprim", h, rcase(r, r.choice(A + P[:2]))))
            else: L.append(("alist", h, rcase(r, r.choice(A + P))))
            a = r.choice(A); L.append(("get", h, a))
            if r.random() < .2: L.append(put(r, h, a, big))
        elif m < .84 and "reopen" in feats:
            L.append(("close", h)); L.append(("open", h, "@F.dss", acc if r.random() < .5 or two else 0, 0, 0, 0, 0))
            if det and False: pass
        elif m < .855 and "squeeze" in feats and not two:
            L.append(("squeeze", 0, r.choice([0, 0, 1, 3])))
        elif "cat" in feats:
            k = r.random()
            if k < .35: L.append(("cat", h, r.choice([0, 1]), r.choice([0, 0, 0, 1, 2, 11]), 0, 0, ""))
            elif k < .5: t = r.choice(TYPES); L.append(("cat", h, r.choice([0, 1]), 0, t - r.choice([0, 50]), t + r.choice([0, 100]), ""))
            elif k < .75: L.append(("cat", h, r.choice([0, 1]), 0, 0, 0, filt(r, r.choice(P))))
            elif k < .85: L.append(("hcat", h, filt(r, r.choice(P)) if r.random() < .5 else ""))
            elif k < .92: L.append(("cnt", h))
            elif k < .95: L.append(("chk", h, anyp()))
            else: L.append((r.choice(["basics", "type", "htype"]), h, anyp()))
    h = hd()
    L += [("cat", h, 0, 0, 0, 0, ""), ("cnt", h)] + [("get", h, p) for p in P + A] + [("zcheck", h)]
    L += [("close", 0)] + ([("close", 1)] if two else [])
    L += [("open", 0, "@F.dss", 0, 0, 0, 0, 0), ("cat", 0, 1, 0, 0, 0, ""), ("cnt", 0)] + [("get", 0, p) for p in P + A]
    return History("store-%s" % seed, L)
