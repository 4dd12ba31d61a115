"""Properties of the pure functions: calendar, date and time texts, time arithmetic, intervals, pathname texts: Times.tla / FnTrace.tla."""
from common import *
import gen_fn, random, json
def fuzz(kind, quick, thorough):
    def gen(tier, seed):
        k = quick if tier == "quick" else thorough; a = seed * 100000 - 100000
        return [gen_fn.history(s, kind) for s in range(a, a + k)]
    return gen
def split(L, name, n=1500): return [History("%s-%d" % (name, i), L[i:i + n]) for i in range(0, len(L), n)]
def days(out): return [json.loads(l.strip()[4:-1].replace('\\"', '"')) for l in out.splitlines() if l.startswith('"@T ')]
def calendar(out, tier, seed):
    """every day of the model"""
    D = days(out); r = random.Random(seed); L = []
    for x in D:
        L.append(("f_ymd", x["y"], x["m"], x["d"]))
        if r.random() < (.1 if tier == "quick" else 1): L.append(("f_date", x["n"], r.choice(gen_fn.STY), r.choice([30, 30, 12])))
    return split(L, "cal"), len(D)
def arithmetic(out, tier, seed):
    """every day of the model at two times, by every interval"""
    D = days(out); r = random.Random(seed); L = []
    for x in D:
        for E in list(gen_fn.BIG) + ["15MINUTE", "1HOUR", "12HOUR"]:
            for s in (86400, 30600):
                ks = [1, -1, 2, 3, -3, 12, -12, 24, 36, -37]; ks = r.sample(ks, 1 if tier == "quick" else 4)
                L += [("f_inc", E, k, x["n"], s) for k in ks]; L.append(("f_off", E, x["n"], s))
                if r.random() < .5: L.append(("f_np", E, x["n"], s, x["n"] + r.randint(-800, 800), r.choice([s, 86400, 30600])))
    return split(L, "arith"), len(D)
TECH = "TLA+ specification (calendar built day by day, interval arithmetic, texts) explored with TLC; every explored day and random arguments evaluated by the real library and each result validated with TLC"
NOTE = "Bounded: it explores, it does not prove the C code."
PROPS = [
 Prop("F01", "Dates and times are the Gregorian calendar's", [Model("calendar", "TimesMC", "FnTrace", calendar, mccfg="TimesMC_cal.cfg"), Source("fuzz", "FnTrace", fuzz("dates", 200, 1500))], technique=TECH, note=NOTE, assumptions=["years 5 to 9999 (the model: years 5 to 410, more than one 400 year cycle); date texts: the documented styles"]),
 Prop("F02", "Moving in time by standard intervals", [Model("arithmetic", "TimesMC", "FnTrace", arithmetic, mccfg="TimesMC.cfg", thorough_cfg="TimesMC_t.cfg", mctimeout=900), Source("fuzz", "FnTrace", fuzz("arith", 60, 1500))], technique=TECH, note=NOTE, assumptions=["month based intervals: instants up to the 27th or at the end of the interval"]),
 Prop("F03", "Interval names and pathname texts", [Source("fuzz", "FnTrace", fuzz("texts", 300, 2000))], technique=TECH, note=NOTE, assumptions=["buffers of exactly the size given, between guards"]),
]
