"""Arguments for the pure functions: calendar, date and time texts, time arithmetic, intervals, pathname texts. No expected results here."""
import random
from harness import History
SEC = {"1SECOND":1,"2SECOND":2,"3SECOND":3,"4SECOND":4,"5SECOND":5,"6SECOND":6,"10SECOND":10,"15SECOND":15,"20SECOND":20,"30SECOND":30,"1MINUTE":60,"2MINUTE":120,"3MINUTE":180,"4MINUTE":240,"5MINUTE":300,"6MINUTE":360,
 "10MINUTE":600,"12MINUTE":720,"15MINUTE":900,"20MINUTE":1200,"30MINUTE":1800,"1HOUR":3600,"2HOUR":7200,"3HOUR":10800,"4HOUR":14400,"6HOUR":21600,"8HOUR":28800,"12HOUR":43200}
BIG = ["1DAY", "1WEEK", "TRI-MONTH", "SEMI-MONTH", "1MONTH", "1YEAR"]
MON = "January February March April May June July August September October November December".split()
STY = [k + t for k in range(10) for t in (0, 10, 100, 110)] + [-1, -2, -11, -12, -13, -101, -102, -111, -112]
V7 = "1Year 1Month Semi-Month Tri-Month 1Week 1Day 12Hour 8Hour 6Hour 4Hour 3Hour 2Hour 1Hour 30Minute 20Minute 15Minute 12Minute 10Minute 6Minute 5Minute 4Minute 3Minute 2Minute 1Minute 30Second 20Second 15Second 10Second 6Second 5Second 4Second 3Second 2Second 1Second IR-Century IR-Decade IR-Year IR-Month IR-Day".split()
V6 = "1YEAR 1MON SEMI-MONTH TRI-MONTH 1WEEK 1DAY 12HOUR 8HOUR 6HOUR 4HOUR 3HOUR 2HOUR 1HOUR 30MIN 20MIN 15MIN 12MIN 10MIN 6MIN 5MIN 4MIN 3MIN 2MIN 1MIN IR-CENTURY IR-DECADE IR-YEAR IR-MONTH IR-DAY".split()
def rcase(r, s):
    k = r.random()
    return s.upper() if k < .25 else s.lower() if k < .45 else "".join(r.choice((c.upper(), c.lower())) for c in s) if k < .6 else s
def jul(r):
    k = r.random()
    if k < .35: return r.randint(1, 60000)
    if k < .5: return r.choice([25568, 36525, 36584, 36585, 36890, 36891, 73050, 73109, 1, 2, 59, 60, 365, 366, 182621, 182986]) + r.randint(0, 3)
    if k < .7: return r.randint(-690000, 2900000)
    if k < .85: return r.randint(0, 2900) * 1461 // 4 + r.randint(0, 6)          # around year ends
    return r.randint(-20000, 150000)
def sec(r): return r.choice([86400, 86400, 1, 2, 60, 3600, 43200, 86399, 30600]) if r.random() < .5 else r.randint(1, 86400)
def ymd(r): y = r.choice([1900, 2000, 1999, 2001, 2004, 2100, 1600, 1896]) if r.random() < .5 else r.randint(1000, 9999); return y, r.randint(1, 12), r.randint(1, 28)
def mon(r, m, short): return rcase(r, MON[m - 1][:3] if short else MON[m - 1])
def parse(r):
    y, m, d = ymd(r); f = r.randint(0, 14); s2 = lambda v: "%02d" % v
    if f == 0: return ("f_parse", r.choice(["01XXX2000", "0/1/2000", "2000-13", "99FOO1999", "32JAN2000", "1/2000", "45MAR1985", "1-2/3", "x/y/z", "not a date", "2000-00-10", "2000-10-00", "12/0/1999", "2001/10/10", "5FBE1999"]), 0, 0, 0, 0)
    t = {1: lambda: s2(d) + mon(r, m, 1) + str(y), 2: lambda: str(d) + mon(r, m, 1) + str(y), 3: lambda: "%d %s %d" % (d, mon(r, m, 0), y), 4: lambda: "%s %d, %d" % (mon(r, m, 0), d, y), 5: lambda: "%s %d, %d" % (mon(r, m, 1), d, y),
         6: lambda: "%d/%d/%d" % (m, d, y), 7: lambda: "%02d/%02d/%d" % (m, d, y), 8: lambda: "%d-%d-%d" % (m, d, y), 9: lambda: "%d-%02d-%02d" % (y, m, d), 10: lambda: mon(r, m, 1) + str(y), 11: lambda: "%02d %s %d" % (d, mon(r, m, 1), y),
         12: lambda: s2(d) + mon(r, m, 1) + s2(y % 100), 13: lambda: "%s %d" % (mon(r, m, 0), y), 14: lambda: "%s %d" % (mon(r, m, 1), y)}[f]()
    return ("f_parse", t, f, y, m, d)
def dates(r):
    k = r.random()
    if k < .25: return ("f_ymd", r.choice([1900, 2000, 2100, 1999, 2004, 5, 6, 400, 100, 101]) if r.random() < .4 else r.randint(5, 9999), r.randint(1, 12) if r.random() < .7 else r.randint(-48 if 0 else 1, 60), r.randint(1, 31) if r.random() < .7 else r.randint(-400, 4000))
    if k < .6: return ("f_date", jul(r), r.choice(STY), r.choice([30, 30, 30, 20, 13, 10, 9, 8, 1, 2, 5]))
    if k < .78: return parse(r)
    if k < .9: return ("f_time", r.choice([0, 86400, 1, 59, 60, 3599, 3600]) if r.random() < .4 else r.randint(0, 86400), r.choice([0, 5, 76, 300, 987]), r.randint(0, 3), r.choice([13, 13, 20, 9, 6, 5]))
    return ("f_tsec", *tsec(r)) if k < .95 else ("f_dt", *dt(r))
def tsec(r):
    f = r.randint(1, 7); h = r.randint(0, 9) if f in (4, 5, 6) else r.randint(0, 23); m = r.randint(0, 59); s = r.randint(0, 59)
    t = {1: "%02d%02d" % (h, m), 2: "%02d:%02d" % (h, m), 3: "%02d:%02d:%02d" % (h, m, s), 4: "%d%02d" % (h, m), 5: "%d:%02d" % (h, m), 6: "%d:%02d:%02d" % (h, m, s), 7: "%02d%02d%02d" % (h, m, s)}[f]
    return (t, f, h, m, s)
def dt(r):
    g = r.choice([1, 60, 60, 900, 3600]); per = 86400 // g; b = r.randint(-20000, 80000)
    return (r.choice([0, 1, -1, per, per + 1, -per, 2 * per, -5 * per]) if r.random() < .4 else r.randint(-300 * per, 300 * per), g, b if abs(b) > 700 else 36000)
def near_end(r):
    y = r.randint(1905, 2090); m = r.randint(1, 12); return y * 365 + y // 4 - 693500 + m * 30 + r.randint(-3, 3)
def arith(r):
    k = r.random(); E = r.choice(list(SEC)) if r.random() < .4 else r.choice(BIG); j = near_end(r) if r.random() < .3 else r.choice([36525, 36584, 36890, 36600, 37000]) + r.randint(-40, 40) if r.random() < .4 else r.randint(2000, 140000)
    s = sec(r); I = SEC.get(E)
    if k < .5:
        n = r.choice([0, 1, -1, 2, -2, 3, -3, 12, 36, -36, 24]) if r.random() < .5 else r.randint(-400, 400)
        if I and r.random() < .3: n = r.randint(-900 * 86400 // I, 900 * 86400 // I); n = max(-2000000000 // I, min(2000000000 // I, n))
        if r.random() < .15: s = r.randint(-200000, 400000)
        return ("f_inc", E, n, j, s)
    if k < .7:
        q = 2000 if not I or I > 30 else 300
        return ("f_np", E, j, s, j + (r.randint(-q, q) if r.random() < .7 else r.randint(-2, 2)), r.choice([s, s, sec(r)]))
    if k < .85: return ("f_off", E, j, s)
    if k < .93:
        g = r.choice([1, 60, 900, 3600, 86400, 0, 7200]); per = 1440 if g < 1 else 86400 // g; x = r.random()
        if x < .05: return ("f_clean", 0, 0, g)
        return ("f_clean", r.randint(1, 80000), r.choice([0, 1, per, per + 1, -1, -per, 2 * per, -2 * per]) if x < .5 else r.randint(-500 * per, 500 * per) if g else r.randint(-99999, 99999), g)
    a = [r.randint(2000, 2010), r.choice([0, 5, 1440, 60]), 30000, r.choice([1, 60, 900])]; b = [a[0] + r.choice([0, 0, 0, 1, -1]), a[1] + r.choice([0, 0, 1, -1, 1440]), 30000, a[3] if r.random() < .7 else r.choice([1, 60, 900])]
    if r.random() < .3: b[0] += 30000; b[2] = 0
    return ("f_cmp", *a, *b)
def word(r, n=None): n = r.choice([0, 1, 2, 3, 5, 8, 20, 64]) if n is None else n; return "".join(r.choice("ABCdefXYZ 0123-:.|") for _ in range(n))
def wpart(r): s = word(r); return r.choice(["", s, s, " " + s, s + "  ", "  " + s + " "])
def path(r): return "/" + "/".join(word(r).strip() for _ in range(6)) + "/"
def cpart(r): return r.choice(["run", "C:000001|run", "c:000012|Run A", "C:1|x", "", "C:abc", "D|x", "C:000099|", "C000001|run"])
def texts(r):
    k = r.random()
    if k < .22:
        ver = r.choice([7, 7, 6]); n = r.choice(V7 if ver == 7 or r.random() < .3 else V6); e = rcase(r, n)
        x = r.random()
        if x < .15: e = "~" + e
        elif x < .3: e = e[:r.randint(1, len(e))]
        elif x < .36: e = e + r.choice(["S", "x", " "])
        elif x < .45: e = r.choice(["FOO", "7Minute", "0Day", "IR-", "~", "1Dey", "xHour", "25HOUR", "IR-Weekly", "2Day", "40Minute"])
        return ("f_epart", ver, e, r.choice([40, 20]))
    if k < .28: return ("f_sec2e", r.choice([7, 7, 6]), r.choice([31536000, 2592000, 1296000, 864000, 604800, 86400, 3600, 60, 1, -1, -2, -3, -4, -5, 7, 0, 61, 900, 1800, 43200, 100000, 2, 30]))
    if k < .3: return ("f_enum", r.choice([6, 7]))
    if k < .45: P = [wpart(r) for _ in range(6)]; L = sum(map(len, P)) + 8; return ("f_form", r.choice([400, 400, L, L - 1, L - 3, 10, 1, 3]) if L > 12 else 400, *P)
    p = path(r)
    if k < .58: return ("f_gpart", p, r.choice([1, 2, 3, 4, 5, 6, 0, 7]), r.choice([70, 70, 10, 3, 1]))
    if k < .76: x = word(r).strip(); return ("f_spart", p, r.choice([500, len(p) + 1, len(p) + 1 + len(x), len(p) + 2, len(p) + max(1, len(x)), len(p) + 10]) , r.choice([1, 2, 3, 4, 5, 6, 6, 0, 7]), x)
    if k < .81: return ("f_lens", p)
    if k < .89:
        q = list(p + r.choice(["", "", "tail/", "x"]))
        for _ in range(r.randint(0, 4)): q.insert(r.randint(0, len(q)), r.choice("\\^`"))
        return ("f_clpath", "".join(q), r.choice([500, len(p), len(p) + 1, len(p) - 1, 5, 1]))
    if k < .93: b = rcase(r, p); b = b if r.random() < .6 else b[:-3] + r.choice("xX/") + b[-2:]; return ("f_scmp", p, b, r.randint(0, min(len(p), len(b))))
    return ("f_seq", "/" + "/".join([word(r, r.randint(0, 6)).strip() for _ in range(5)] + [cpart(r)]) + "/", r.choice([0, 1, 7, 42, 999, 123456]))
KINDS = {"dates": dates, "arith": arith, "texts": texts}
def history(seed, kind, n=400):
    r = random.Random("fn-%s-%d" % (kind, seed)); return History("fn-%s-%d" % (kind, seed), [KINDS[kind](r) for _ in range(n)])
