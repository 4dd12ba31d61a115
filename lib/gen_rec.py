"""Random histories of paired data, texts, arrays, grids, TINs and locations."""
import random, gen_store
from harness import History
rcase = gen_store.rcase
NUM = ["0", "1", "-1", "2.5", "3.25", "100", "-7.125", "1234.5", "0.1", "-0.3", "1e20", "123456.789", "3.14159265358979", "-1e-5", "33", "7", "88.25", "12", "4096", "2e9"]
def num(r, miss=True): return "M" if miss and r.random() < .06 else r.choice(NUM) if r.random() < .6 else "%.6g" % r.uniform(-1e4, 1e4)
def nums(r, n, miss=True): return ",".join(num(r, miss) for _ in range(n))
WORDS = ["FEET", "CFS", "DOLLARS", "Linear", "Log", "Probability", "ft", "m3/s", "UNT", "A b", "x", "Total", "Residential structures", "Commercial", "Q=1", "long-label-" + "L" * 40, "a" * 7, "b" * 8, "c" * 9]
def word(r): return r.choice(WORDS)
def label(r): return r.choice(WORDS + [""]) if r.random() < .8 else "".join(r.choice("abcdef 0123") for _ in range(r.randrange(1, 30))).strip() or "z"
def labels(r, n): return "|".join(label(r) for _ in range(n)) or "one"
TZS = ["", "", "UTC", "US/Pacific", "PST8PDT", "GMT", "Etc/GMT+8"]
UH = ["", "", "", "user header", "abcd", "abcdefg", "x", "k:v;w:z;" * 5]
def text(r, big=False):
    k = r.random()
    if k < .1: return ""
    if k < .25: return "=" + r.choice(["one line", "Hello\\nWorld", "x", "ab", "abc", "abcd", "tab|le|", "été"])
    return "%d:%d" % (r.randrange(1, 10**6), r.choice([1, 2, 3, 4, 5, 7, 8, 9, 100, 255, 1000] + ([4000, 20000] if big else [])))
def table(r, n, k=24): return "=" + "".join(label(r)[:k] + "|" for _ in range(n))

def common(r, P, L, other=None):
    m = r.random(); p = rcase(r, r.choice(P)); h = 0
    if m < .14: L.append(("chk", h, p))
    elif m < .24: L.append(("basics", h, p))
    elif m < .32: L.append(("type", h, p))
    elif m < .38: L.append(("cnt", h))
    elif m < .48: L.append(("cat", h, r.choice([0, 1]), 0, 0, 0, ""))
    elif m < .62: L.append(("del", h, p))
    elif m < .72: L.append(("dup", h, p, rcase(r, r.choice([q for q in P if q.upper() != p.upper()]))))
    elif m < .80: L.append(("ren", h, p, rcase(r, r.choice(P))))
    elif m < .85: L.append(("squeeze", h, r.choice([0, 1])))
    elif m < .97: L += [("close", h), ("open", h, "@F.dss", r.choice([0, 0, 3, 4]), 0, 0, 0, 0)]
    else: L.append(("zcheck", h))

def start(r, kind=None):
    P = ["/%s/%s/%s/%s/%s/%s/" % t for t in r.sample([("A", "B", "C-D", "", "", "V%d" % i) for i in range(4)] + [("BASIN", "Loc %d" % i, "STAGE-DAMAGE", "", "YEAR", "") for i in range(3)] + [("", "", "X-Y", "p%d" % i, "", "") for i in range(3)], r.choice([2, 3, 5]))]
    hs, bs = r.choice([(0, 0), (0, 0), (2, 100), (8, 150)])
    L = [("open", 0, "@F.dss", r.choice([0, 0, 2, 3, 4]), 0, hs, bs, 0)]
    if r.random() < .3: L.append(("fset", 0, "reclaim", r.choice([1, 2, 3])))
    return P, L

class PD:  # what the generator thinks the file contains (only to aim partial stores and reads)
    def __init__(s): s.d = {}
    def pd(s, p): o = s.d.get(p.upper()); return o if o and o != 'tx' else None
def pdput(r, M, p):
    o = M.pd(p); k = r.random()
    if o and k < .55: return part(r, o, p)
    no, nc = (o[0], o[1]) if o and r.random() < .4 else (r.choice([1, 1, 2, 3, 4, 5, 7, 12, 40]), r.choice([1, 1, 2, 3, 4, 6]))
    via = 1 if r.random() < .2 else 0; flag = r.choice([0, 0, 0, 1, 2, 10, 11, 12]) if not via else 0
    lab = labels(r, nc) if r.random() < .45 else ""; dbl = r.choice([0, 1]); M.d[p.upper()] = (no, nc, lab != "", via or (dbl if flag in (0, 10) else flag in (2, 12)))
    if via: return ("pdput", 0, p, 0, 1, no, nc, 0, 0, 0, 0, nums(r, no, False), nums(r, no * nc), word(r), word(r), word(r), word(r), r.choice(TZS), lab, 0, 0, 0, "", 1)
    full = r.random() < .3
    return ("pdput", 0, p, flag, dbl, no, nc, *((1, nc, 1, no) if full else r.choice([(0, 0, 0, 0)] * 3 + [(0, 0, 1, no), (0, 0, 0, no)])), nums(r, no, False), nums(r, no * nc),
            word(r), word(r), word(r), word(r), r.choice(TZS), lab, r.choice([0, 1]), *r.choice([(-1, -1), (0, 0), (2, 3), (9, 1)]), r.choice(UH), 0)
def rng(r, n):
    a = r.randrange(1, n + 1); b = r.randrange(a, n + 1); k = r.random()
    return (0, 0) if k < .2 else (a, a) if k < .5 else (a, n) if k < .6 else (a, 0) if k < .7 else (1, n) if k < .75 else (1, b) if k < .8 else (0, b) if k < .85 else (a, b)
def clip(a, b, n): a = a or 1; b = n if b == 0 or b > n else b; return b - a + 1
def entire(no, nc, sc, ec, so, eo): return not (sc > 1 or so > 1 or eo not in (0, no) or ec not in (0, nc) or (so == 0 and eo == 0 and (sc or ec)))
def part(r, o, p):
    no, nc, lab, _ = o
    for _ in range(50):
        sc, ec = rng(r, nc); so, eo = rng(r, no)
        if not entire(no, nc, sc, ec, so, eo): break
    else: return ("pdget", 0, p, 0, 0, 0, 0, 0, 0)
    rows, cur = clip(so, eo, no), clip(sc, ec, nc)
    return ("pdput", 0, p, r.choice([0, 0, 1, 2]), r.choice([0, 1]), no, nc, sc, ec, so, eo, nums(r, no, False), nums(r, rows * cur), word(r), word(r), word(r), word(r), "", labels(r, cur) if r.random() < (.4 if lab else .25) else "", 0, -1, -1, "", 0)
def pdget(r, M, p):
    o = M.pd(p)
    if r.random() < .15: return ("pdget", 0, p, 0, 0, 0, 0, 0, 1)
    if not o or r.random() < .45: return ("pdget", 0, p, r.choice([0, 0, 1, 2]), 0, 0, 0, 0, 0)
    sc, ec = rng(r, o[1]); so, eo = rng(r, o[0])
    return ("pdget", 0, p, r.choice([0, 0, 1, 2]), sc, ec, so, eo, 0)
def h_pd(r, n):
    P, L = start(r); M = PD()
    for _ in range(n):
        p = rcase(r, r.choice(P)); m = r.random()
        if m < .42: L.append(pdput(r, M, p))
        elif m < .78: L.append(pdget(r, M, p))
        elif m < .80: L.append(("txput", 0, p, "=text", "", 0, 0, "", "", 0)); M.d.setdefault(p.upper(), "tx")
        elif m < .82: L.append(("txget", 0, p, 0, 100))
        else:
            k = len(L); common(r, P, L)
            for l in L[k:]:
                u = l[2].upper() if len(l) > 2 and isinstance(l[2], str) else None; v = l[3].upper() if l[0] in ("dup", "ren") else None
                if l[0] == "del": M.d.pop(u, None)
                ty = lambda o: o if o == "tx" else bool(o[3])
                if l[0] == "ren" and u in M.d: M.d[v] = M.d.pop(u)
                if l[0] == "dup" and u in M.d and (v not in M.d or ty(M.d[v]) == ty(M.d[u])): M.d[v] = M.d[u]
    for p in P: L += [("pdget", 0, p, 0, 0, 0, 0, 0, 0), ("pdget", 0, p, 0, 0, 0, 0, 0, 1)]
    return L + [("cat", 0, 0, 0, 0, 0, ""), ("zcheck", 0)]

def h_tx(r, n):
    P, L = start(r)
    for _ in range(n):
        p = rcase(r, r.choice(P)); m = r.random()
        if m < .22:
            k = r.random(); t = text(r, True)
            if k < .4: L.append(("txput", 0, p, t if not t.startswith("=") or "|" not in t else "=abc", "", 0, 0, "", "", 1))
            elif k < .65: L.append(("txput", 0, p, t, "", 0, 0, "", r.choice(UH), 0))
            else:
                rows = r.choice([1, 2, 3, 7]); cols = r.choice([0, 1, 1, 2, 3]); L.append(("txput", 0, p, t if r.random() < .3 else "", table(r, rows * max(cols, 1)), rows, cols, table(r, max(cols, 1)) if r.random() < .5 else "", r.choice(UH), 0))
        elif m < .40: L.append(("txget", 0, p, r.choice([0, 0, 1]), r.choice([0, 3, 10, 100, 1000, 30000])))
        elif m < .46: L.append(("tximp", 0, p, text(r, True).replace("|", ""), 1 if r.random() < .1 else 0))
        elif m < .54: L.append(("txexp", 0, p, 1 if r.random() < .1 else 0))
        elif m < .68:
            k = lambda: r.choice([0, 0, 1, 2, 3, 5, 10, 64, 255]); L.append(("arput", 0, p, r.randrange(1, 10**6), k(), k(), k(), r.choice(UH), r.choice([0, 0, 1])))
        elif m < .82: L.append(("arget", 0, p, r.choice([0, 1])))
        else: common(r, P, L)
    for p in P: L += [("txget", 0, p, 0, 0), ("txexp", 0, p, 0), ("arget", 0, p, r.choice([0, 1]))]
    return L + [("cat", 0, 0, 0, 0, 0, ""), ("zcheck", 0)]

STR = ["", "MM", "HEC-MetVue", "CFS", "a" * 3, "b" * 4, "Albers Equal Area", "PROJCS[\"USA\",GEOGCS[\"GCS\",DATUM[\"D\"]]" * 3, "UTC", "Pacific/Los_Angeles"]
def h_gd(r, n):
    P, L = start(r)
    GP = ["/SHG/B%d/PRECIP/%s/%s/F/" % (i, *r.choice([("30JAN2003:1400", "30JAN2003:1500"), ("01JAN2001:0000", "01JAN2001:2400"), ("30JAN2003:1400", ""), ("", "")])) for i in range(r.choice([1, 2, 3]))]
    P = GP + P[:1]
    s = lambda: r.choice(STR)
    for _ in range(n):
        p = rcase(r, r.choice(P)); m = r.random()
        if m < .30:
            nx, ny = r.choice([(1, 1), (2, 2), (3, 3), (5, 7), (10, 13), (1, 9), (33, 65)] + ([(100, 170)] if r.random() < .2 else [])); via = r.choice([0, 0, 1]); pre = 1 if r.random() < .25 else 0
            L.append(("gdput", 0, p, r.choice([400, 410, 420, 430, 401, 411, 421, 431]) if r.random() < .4 else 420 + (0 if p[1] == "S" else 0), nx, ny, 26 if pre or via else r.choice([26, 26, 1, 0]), r.choice([0, 1, 2, 5, 12]), r.randrange(1, 10**6), s(), s(), s(), s(), s(), via, pre))
        elif m < .58: L.append(("gdget", 0, p, r.choice([0, 1, 1]), r.choice([0, 0, 1])))
        elif m < .70:
            np = r.choice([1, 2, 3, 4, 9, 30]); L.append(("tinput", 0, p, np, r.choice([0, 1, np, 3 * np]), r.choice(["", "=ab|cd|", "7:%d" % r.choice([3, 4, 5, 40])]), r.randrange(1, 10**6), *(s() + r.choice(["", "", "", " ", "   "]) for _ in range(6))))
        elif m < .82: L.append(("tinget", 0, p, r.choice([0, 1, 1])))
        else: common(r, P, L)
    for p in P: L += [("gdget", 0, p, 1, 0), ("gdget", 0, p, 1, 1), ("tinget", 0, p, 1)]
    return L + [("cat", 0, 0, 0, 0, 0, ""), ("zcheck", 0)]

def h_lc(r, n):
    _, L = start(r); AB = r.sample([("A", "B"), ("a", "C"), ("BASIN one", "Loc 7"), ("", "ONLY B"), ("X" * 40, "Y" * 60), ("A" * 63, "B" * 63), ("A" * 120, "B" * 125)], r.choice([1, 2, 3]))
    P = ["/%s/%s/%s/%s/%s/%s/" % (*r.choice(AB), *t) for t in [("FLOW", "", "1DAY", "OBS"), ("X-Y", "", "", "F"), ("Location Info", "", "", ""), ("", "", "", "Z")]]; P = list({p.upper(): p for p in P}.values())
    N = lambda: r.choice(["0", "0", "-121.5", "38.25", "1234567.875", "-9999", "%.9g" % r.uniform(-180, 180)])
    for _ in range(n):
        p = rcase(r, r.choice(P)); m = r.random()
        if m < .34: L.append(("lcput", 0, p, N(), N(), N(), r.randrange(0, 6), r.randrange(0, 20), r.randrange(0, 7), r.randrange(0, 3), r.randrange(0, 3), r.randrange(0, 3), r.choice(TZS), r.choice(["", "note", "abcd", "info:x;", "s" * r.randrange(1, 70), "k:v;" * r.choice([20, 100])]), r.choice([0, 1, 1]), r.choice([0, 0, 1])))
        elif m < .66: L.append(("lcget", 0, p, r.choice([0, 0, 1])))
        elif m < .74: L.append(("lcdel", 0, p))
        elif m < .80: L.append(("txput", 0, "/T/T/NOTE///x/", "=text", "", 0, 0, "", "", 0))
        else:
            k = r.random(); q = "/T/T/NOTE///x/"
            if k < .7: 
                k0 = len(L); common(r, [q, "/T/U/NOTE///y/"], L)
            else: L.append((r.choice(["chk", "type", "basics"]), 0, "/%s/%s/Location Info////" % r.choice(AB)))
    for p in P: L += [("lcget", 0, p, 0), ("lcget", 0, p, 1)]
    return L + [("cat", 0, 0, 0, 0, 0, ""), ("zcheck", 0)]
KINDS = {"pd": h_pd, "tx": h_tx, "gd": h_gd, "lc": h_lc}
def history(seed, kind, n=36):
    r = random.Random("rec%s%s" % (kind, seed)); return History("rec-%s-%s" % (kind, seed), KINDS[kind](r, n))
