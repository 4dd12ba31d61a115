"""Random time series histories.  Keeps no oracle: only chooses windows, values and notes near block boundaries."""
import random, datetime as D
from harness import History, line

SEC = {"1SECOND": 1, "2SECOND": 2, "5SECOND": 5, "10SECOND": 10, "15SECOND": 15, "30SECOND": 30, "1MINUTE": 60, "2MINUTE": 120, "3MINUTE": 180, "4MINUTE": 240,
       "5MINUTE": 300, "6MINUTE": 360, "10MINUTE": 600, "12MINUTE": 720, "15MINUTE": 900, "20MINUTE": 1200, "30MINUTE": 1800, "1HOUR": 3600, "2HOUR": 7200,
       "3HOUR": 10800, "4HOUR": 14400, "6HOUR": 21600, "8HOUR": 28800, "12HOUR": 43200}
DAYB = ["1DAY", "1DAY", "1WEEK", "TRI-MONTH", "SEMI-MONTH", "1MONTH", "1MONTH", "1YEAR"]
IRR = ["IR-DAY", "IR-MONTH", "IR-YEAR", "IR-DECADE", "IR-CENTURY"]
Z = D.date(1899, 12, 31).toordinal()
def ordi(y, m, d): return D.date(y, m, d).toordinal() - Z
def civ(n): return D.date.fromordinal(n + Z)
def kind(E):
    if E in SEC: return "day" if SEC[E] < 900 else "month"
    return {"1DAY": "year", "1YEAR": "century", "IR-DAY": "day", "IR-MONTH": "month", "IR-YEAR": "year", "IR-DECADE": "decade", "IR-CENTURY": "century"}.get(E, "decade")
def span(E):   # seconds, about
    return SEC.get(E) or {"1DAY": 86400, "1WEEK": 7 * 86400, "TRI-MONTH": 10 * 86400, "SEMI-MONTH": 15 * 86400, "1MONTH": 30 * 86400, "1YEAR": 365 * 86400}[E]
def nrm(d, s): s -= 1; return (d + s // 86400, s % 86400 + 1)
def datetxt(r, n):
    c = civ(n); return c.strftime("%d%b%Y") if r.random() < .7 else c.strftime("%d %b %Y") if False else c.strftime("%d%b%Y").upper()
def timetxt(r, s):
    if s % 60: return "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
    return "%02d%02d" % (s // 3600, s // 60 % 60) if r.random() < .8 else "%02d:%02d" % (s // 3600, s // 60 % 60)
def inst(r, t): return datetxt(r, t[0]), timetxt(r, t[1]), "%d,%d,%d,%d" % (*map(int, civ(t[0]).strftime("%Y %m %d").split()), t[1])
def days_in(y, m): return (D.date(y + m // 12, m % 12 + 1, 1) - D.timedelta(1)).day
def slot_end(E, day, k):
    """instant of the k-th slot end after the slot containing `day`'s end"""
    if E in SEC: return nrm(day, 86400 + k * SEC[E])
    if E == "1DAY": return (day + k, 86400)
    if E == "1WEEK": return (day - day % 7 + 6 + 7 * k, 86400)
    c = civ(day)
    if E == "1YEAR": return (ordi(c.year + k, 12, 31), 86400)
    per = {"TRI-MONTH": 3, "SEMI-MONTH": 2, "1MONTH": 1}[E]
    i = 0 if per == 1 else (0 if c.day <= 15 else 1) if per == 2 else (0 if c.day <= 10 else 1 if c.day <= 20 else 2)
    i = (c.year * 12 + c.month - 1) * per + i + k; ym, q = divmod(i, per); y, m = divmod(ym, 12); m += 1
    d = days_in(y, m) if q == per - 1 else (15 if per == 2 else 10 * (q + 1))
    return (ordi(y, m, d), 86400)

def anchor(r, E):
    """the last day of a block"""
    k = kind(E)
    if k == "day": y, m, d = r.choice([(1999, 12, 31), (2000, 2, 28), (2000, 2, 29), (2011, 6, 30), (1999, 2, 28), (2024, 12, 30), (1989, 12, 31)]); return ordi(y, m, d)
    if k == "month": y, m = r.choice([(1999, 12), (2000, 2), (1900, 2), (2011, 6), (2023, 2), (1949, 12), (2000, 1)]); 
    elif k == "year": y, m = r.choice([1999, 2000, 1900, 2011, 1898, 1850]), 12   # not day 0: a finding of its own
    elif k == "decade": y, m = r.choice([1999, 1989, 2009, 1889, 1949]), 12
    else: y, m = 1999, 12
    if E in SEC and SEC[E] < 60: y = max(1961, y)
    return ordi(y, m, days_in(y, m))

VAL = ["0", "1", "2", "-3", "7", "0.1", "0.3", "12.7", "-0.05", "1e-7", "123456.789", "1e20"]
def values(r, n, miss):
    out = []
    mode = r.random()
    if mode < .08: return ["M"] * n
    if mode < .2: return ["0"] * n if r.random() < .5 else ["5"] * n
    while len(out) < n:
        k = r.random(); run = min(n - len(out), r.choice([1, 1, 1, 2, 3, 8, 40]))
        if k < miss: out += ["M"] * run
        elif k < .75: out += [str(r.randrange(1, 999) / r.choice([1, 1, 10, 100])) for _ in range(run)]
        elif k < .97: out += [r.choice(VAL)] * run
        else: out += [r.choice(["-901", "-902"])] * run
    return out
NOTE = ["", "", "a", "checked", "x y z", "estimated value", "?", "A longer note about this single value"]
UNITS = ["CFS", "FEET", "m", "deg C", "M3/S"]; TYPES = ["INST-VAL", "PER-AVER", "PER-CUM", "INST-CUM", "PER-MIN"]

def extras(r, n, via, p):
    qw, q, iw, i, c = 0, "", 0, "", ""
    if r.random() < p:
        k = r.random()
        if via == 1: qw = 1 if k < .8 else 0
        else: qw = r.choice([1, 1, 2, 3]) if k < .7 else 0
        if via == 0 and r.random() < .3: iw = r.choice([1, 1, 2])
        if via == 0 and r.random() < (.03 if iw else .4): c = "|".join(r.choice(NOTE) for _ in range(n)) + "|"
        q = ",".join(str(r.choice([0, 1, 3, 77, -5, 100000])) for _ in range(n * qw)); i = ",".join(str(r.choice([0, 0, 2, 9, -1])) for _ in range(n * iw))
    return qw, q, iw, i, c

class Ser:
    def __init__(s, r, name, E, notes, prof=0):
        s.dn = 0; s.dep = s.ud = ""; s.done = []
        s.E = E; s.a = anchor(r, E); s.reg = E in SEC or E in DAYB; s.path = "/%s/%s/FLOW/%%s/%s/%s/" % (r.choice(["", "BASIN"]), name, E, r.choice(["", "OBS", "run one"]))
        s.notes = notes if r.random() < .7 else 0; s.off = 0; s.dbl = r.choice([0, 1, 1, 2]); s.units = r.choice(UNITS); s.tt = r.choice(TYPES); s.tz = r.choice(["", "", "PST8PDT", "GMT"])
        s.mixv = r.random() < .5; s.gran = r.choice([60, 60, 1, 3600]) if E != "IR-CENTURY" else 60
        if s.reg and r.random() < .25:
            lim = min(span(E), {"1MONTH": 27 * 86400, "SEMI-MONTH": 12 * 86400, "TRI-MONTH": 7 * 86400, "1YEAR": 58 * 86400}.get(E, 10**9))
            if lim > 60: s.off = r.randrange(1, lim // 60) * 60 if lim > 120 else 60
            elif lim > 1: s.off = 0
        if prof:
            s.dn = r.choice([2, 2, 3, 3, 4, 7, 1]); s.dep = ",".join(str(x) for x in sorted(r.sample([0, 1, 2.5, 5, 7.25, 10, 20, 33.5, 100], s.dn))); s.ud = r.choice(["feet", "m", "meters below surface"]); s.mixv = False; s.dbl = r.choice([0, 1])
        if E == "1WEEK":   # not across the beginning of a decade: a finding of its own
            s.a = ordi(r.choice([1994, 2005, 1926]), r.choice([3, 12]), 25)
    def vals(s, r, n, miss):
        if not s.dn: return ",".join(values(r, n, miss))
        if r.random() < .2: return ",".join(values(r, n * s.dn, miss))
        x = []   # whole instants missing, and single depths
        for v in values(r, n, miss): x += ["M"] * s.dn if v == "M" else [v if k == 0 else "M" if r.random() < .15 else v if r.random() < .3 else str(r.randrange(1, 999) / 10) for k in range(s.dn)]
        return ",".join(x)
    def clash(s, r, h):   # another number of depths or another precision for values that are there
        g = r.choice(s.done); vs = r.choice([1, 1, 2, 3]); dbl = s.dbl
        if r.random() < .7: dn = r.choice([x for x in (0, 1, 2, 3, 5, s.dn + 1, s.dn - 1) if x != s.dn])
        else: dn = s.dn; dbl = 1 - dbl
        tail = (",".join(str(x) for x in range(dn)), s.ud) if dn else ()
        v = lambda n: ",".join(str(r.randrange(1, 999) / 10) for _ in range(n * max(dn, 1)))
        if s.reg:
            k = r.choice(g); d, t, y = inst(r, s.at(k))
            return ("tsput", h, s.p(r), d, t, y, 0, dbl, v(1), s.units, s.tt, s.tz, 0, "", 0, "", "", 0, "") + tail
        x = r.choice(g); c0 = civ(x[0])
        return ("irput", h, s.p(r), datetxt(r, x[0]), "%d,%d,%d" % (c0.year, c0.month, c0.day), s.gran, str(x[1] // s.gran), 0, dbl, v(1), s.units, s.tt, s.tz, 0, "", 0, "", "", 0) + tail
    def tail(s, r): return (s.dep, s.ud) if s.dn else ()
    def p(s, r): 
        t = s.path % r.choice(["", "", "", "01JAN2000" if s.E != "1WEEK" else ""]) if r.random() < .3 else s.path % ""
        return t.lower() if r.random() < .1 else t
    def at(s, k):
        e = slot_end(s.E, s.a, k)
        if not s.off: return e
        b = slot_end(s.E, s.a, k - 1); return nrm(b[0], b[1] + s.off)
    def put(s, r, h):
        wide = r.random() < .12
        n = r.randrange(1, 14) if r.random() < .6 else r.randrange(1, 45); k = r.randrange(-20, 12)
        if wide and kind(s.E) in ("decade",) and s.E != "1WEEK": n = r.randrange(100, 400); k = -n // 2
        if wide and kind(s.E) == "day" and SEC[s.E] >= 300: n = r.randrange(200, 700); k = -n // 2
        if wide and kind(s.E) == "month" and SEC[s.E] >= 14400: n = r.randrange(150, 420); k = -r.randrange(n)
        if s.E == "1WEEK": k = r.randrange(-20, 5); n = min(n, 45)
        via = 1 if s.mixv and r.random() < .35 else 0; dbl = s.dbl if s.dbl < 2 else r.choice([0, 1])
        if s.dbl == 2 and r.random() < .7: dbl = 1
        qw, q, iw, i, c = extras(r, n, via, s.notes)
        d, t, y = inst(r, s.at(k))
        u, tt = (s.units, s.tt) if r.random() < .95 else (r.choice(UNITS), r.choice(TYPES))
        if s.dn and s.done and r.random() < .08: return s.clash(r, h)
        flag = r.choice([0, 0, 0, 1, 2, 3, 4])
        L = ("tsput", h, s.p(r), d, t, y, flag, dbl, s.vals(r, n, r.choice([.1, .1, .35])), u, tt, s.tz, qw, q, iw, i, c, via, "") + s.tail(r)
        if s.dn and not flag and not (c and iw):
            v = L[8].split(","); s.done.append([k + j for j in range(len(v) // s.dn) if any(x not in "M" and float(x) > -900 for x in v[j * s.dn:j * s.dn + s.dn])])
            if not s.done[-1]: s.done.pop()
        return L
    def window(s, r):
        k = r.randrange(-26, 14); n = r.choice([1, 2, 5, 10, 30, 50]); a, b = s.at(k), s.at(k + n - 1)
        if r.random() < .25: a = nrm(a[0], a[1] - 60 * r.randrange(0, 3)); b = nrm(b[0], b[1] + 60 * r.randrange(0, 3))
        return inst(r, a), inst(r, b)
    def get(s, r, h):
        via = 1 if r.random() < (.1 if s.dn else .3) else 0
        if r.random() < .2:
            w = (("", "", ""), ("", "", "")); al = 1
            if SEC.get(s.E, 9999) <= 60: via = 0   # more values than the driver asks for
        else: w = s.window(r); al = 0
        if via == 0 and al: al = r.choice([0, 1])
        flag = 0 if via else r.choice([0, 0, -1, -1, -2, -3]) if s.reg else r.choice([0, 0, 1, 2, 3])
        if al or not w[0][0]: flag = flag if s.reg else 0
        return ("tsget", h, s.p(r), w[0][0], w[0][1], w[1][0], w[1][1], w[0][2], w[1][2], 2 if via else r.choice([0, 0, 1, 2]), flag, r.choice([0, 1, 1]), al, via, 0)
    # irregular
    def iput(s, r, h):
        g = s.gran; base = s.a - r.choice([0, 0, 1, 40]); step = {"day": 1800, "month": 40000, "year": 500000, "decade": 4000000, "century": 50000000}[kind(s.E)]
        n = r.choice([1, 2, 3, 5, 8, 15]); t = (s.a + 1 - base) * 86400 + int(r.uniform(-3, 2) * step * 6); ts = []
        for _ in range(n):
            t += max(g, int(r.expovariate(1) * step * r.choice([.1, 1, 1, 2]))); x = t // g
            if r.random() < .15: x = ((s.a + 1 - base) * 86400) // g + r.choice([0, 0, 1, -1])
            ts.append(x)
        if r.random() < .4 and s.seen: ts += [(d - base) * 86400 // g + sec // g for d, sec in r.sample(s.seen, min(len(s.seen), r.choice([1, 3]))) if ((d - base) * 86400 + sec) % g == 0]
        ts = sorted(set(x for x in ts if -2**31 < x < 2**31 and base * 86400 + x * g > -36000 * 86400)); n = len(ts)
        if s.E in ("IR-CENTURY", "IR-DECADE") and g == 1: ts = [x // 60 * 60 for x in ts]; ts = sorted(set(ts)); n = len(ts)
        s.seen += [nrm(base, x * g) for x in ts]
        via = 1 if s.mixv and r.random() < .35 else 0; qw, q, iw, i, c = extras(r, n, via, s.notes); dbl = s.dbl if s.dbl < 2 else 1
        c0 = civ(base)
        flag = r.choice([0, 0, 1])
        if s.dn and s.done and r.random() < .08: return s.clash(r, h)
        L = ("irput", h, s.p(r), datetxt(r, base), "%d,%d,%d" % (c0.year, c0.month, c0.day), g, ",".join(map(str, ts)), flag, dbl, s.vals(r, n, .08), s.units, s.tt, s.tz, qw, q, iw, i, c, via) + s.tail(r)
        if s.dn and flag: s.done = []
        if s.dn and ts and not (c and iw): s.done.append(s.seen[-min(3, len(ts)):])
        return L
    def iget(s, r, h):
        g = list(s.get.__func__(s, r, h)) if False else None
        via = 1 if r.random() < (.1 if s.dn else .3) else 0; al = 0
        if r.random() < .2 or not s.seen: w = (("", "", ""), ("", "", "")); al = 0 if via else r.choice([0, 1])
        else:
            x, y = sorted(r.choices(s.seen, k=2)); sh = lambda: r.choice([0, 0, 60, -60, 3600, -86400])
            x = nrm(x[0], x[1] + sh()); y = nrm(y[0], y[1] + sh())
            if y < x: x, y = y, x
            w = (inst(r, x), inst(r, y))
        flag = 0 if via or not w[0][0] else r.choice([0, 0, 1, 2, 3])
        return ("tsget", h, s.p(r), w[0][0], w[0][1], w[1][0], w[1][1], w[0][2], w[1][2], 2 if via else r.choice([0, 0, 1, 2]), flag, r.choice([0, 1, 1]), al, via, 0)
    def block(s, r):
        c = civ(s.a + r.choice([0, 1])); k = kind(s.E); y, m, d = c.year, c.month, c.day
        if k == "month": d = 1
        if k == "year": m = d = 1
        if k == "decade": y, m, d = y - y % 10, 1, 1
        if k == "century": y, m, d = y - y % 100, 1, 1
        return s.path % D.date(y, m, d).strftime("%d%b%Y" if r.random() < .5 else "%d%b%Y").upper()

def history(seed, n=26, mode="reg"):
    r = random.Random("ts%s%s" % (mode, seed)); L = []
    acc = r.choice([0, 0, 2, 4]); hs = r.choice([0, 0, 8]); L.append(("open", 0, "@F.dss", acc, 0, hs, 100 if hs else 0, 0))
    two = r.random() < .2
    if two: L[0] = ("open", 0, "@F.dss", 2, 0, 0, 0, 0); L.append(("open", 1, "@F.dss", 2, 0, 0, 0, 0))
    if r.random() < .2: L.append(("fset", 0, "reclaim", r.choice([2, 3])))
    notes = {"reg": .15, "notes": .9, "irr": .4, "meta": .3, "prof": .3}[mode]
    def ser(k):
        E = r.choice(IRR) if mode == "irr" or (mode in ("meta", "notes", "prof") and r.random() < .35) else r.choice(list(SEC) + DAYB * 4)
        s = Ser(r, "L%d" % k, E, notes, mode == "prof"); s.seen = []; return s
    X = [ser(k) for k in range(r.choice([1, 1, 2]))]
    h = lambda: r.choice([0, 1]) if two else 0
    put = lambda s: s.put(r, h()) if s.reg else s.iput(r, h())
    get = lambda s: s.get(r, h()) if s.reg else s.iget(r, h())
    copy = r.random() < .12
    for s in X: L.append(put(s))
    for i in range(n):
        s = r.choice(X); m = r.random()
        if m < .42: 
            p = put(s)
            if p[4 if not s.reg else 8] == "" : continue
            L.append(p)
        elif m < .86: L.append(get(s))
        elif m < .885: L += [("del", h(), s.block(r)), get(s)]; s.done = []
        elif m < .90: L.append(("squeeze", 0, 0)) if not two else None
        elif m < .92: x = h(); L += [("close", x), ("open", x, "@F.dss", 2 if two else 0, 0, 0, 0, 0)]
        elif m < .94 and copy: L += [("open", 2, "@F_b.dss", 0, 0, 0, 0, 0), ("cpyfile", h(), 2), ("cat", 2, r.randrange(2), 0, 0, 0, ""), ("tsget", 2) + get(s)[2:], ("close", 2)]
        else:
            k = r.random()
            if mode == "meta" or k < .3: L.append(("cat", h(), r.randrange(2), 0, 0, 0, ""))
            w = s.window(r) if s.reg else None
            if not s.reg and s.seen: x, y = sorted(r.choices(s.seen, k=2)); w = (inst(r, x), inst(r, y))
            if w and k < .6: L.append(("tssize", h(), s.path % "", w[0][0], w[0][1], w[1][0], w[1][1], w[0][2], w[1][2]))
            elif k < .8: L.append(("tsrange", h(), s.path % "", 1))
            else: L.append(("tsinfo", h(), s.block(r)))
        if mode == "meta" and r.random() < .4: L.append(("tsrange", h(), s.path % "", 1) if r.random() < .5 else ("tsinfo", h(), s.block(r)))
    L = [x for x in L if x]
    for s in X: L += [get(s), ("tsget", 0, s.path % "", "", "", "", "", "", "", 0, 0, 1, 1, 0, 0)]
    L += [("cat", 0, r.randrange(2), 0, 0, 0, ""), ("zcheck", 0), ("close", 0)] + ([("close", 1)] if two else []) + [("open", 0, "@F.dss", 0, 0, 0, 0, 0)]
    for s in X: L += [("tsget", 0, s.path % "", "", "", "", "", "", "", 0, 0, 1, 1, 0, 0), ("tsrange", 0, s.path % "", 1)]
    return History("ts%s-%s" % (mode, seed), L)
