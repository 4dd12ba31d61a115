"""Properties of paired data, texts, arrays, grids, TINs and locations: RecData.tla / RecTrace.tla."""
from common import *
import gen_rec, random
def fuzz(kind, quick, thorough):
    def gen(tier, seed):
        k = quick if tier == "quick" else thorough; a = seed * 100000 - 100000
        return [gen_rec.history(s, kind) for s in range(a, a + k)]
    return gen
NAMES = [("/A/B/C///V1/", "/A/B/C///V2/"), ("/BASIN/LOC 1/STAGE-DAMAGE//YEAR/RUN/", "/BASIN/LOC 1/FREQ-FLOW//YEAR/RUN/"), ("///X-Y///%s/" % ("V" * 64), "//B/////")]
def tour_histories(rows, frac):
    """histories from the transitions of RecMC"""
    def gen(out, tier, seed):
        W, n = tour.walks(tour.parse(out), seed=seed, maxlen=60, frac=frac if tier == "quick" else 1); r = random.Random(seed); H = []
        for k, w in enumerate(W):
            nm = dict(zip(("/A/B/C///V1/", "/A/B/C///V2/"), r.choice(NAMES))); P = list(nm.values()); cs = lambda x: gen_rec.rcase(r, nm[x]); nv = rows * 2
            L = [("open", 0, "@F.dss", r.choice([0, 0, 2, 4]), 0, 0, 0, 0)]; meta = ("FEET", "Linear", "CFS", "Linear"); ods = ",".join(str(i + 1) for i in range(rows))
            def pd(p, sz, v, lab):
                pre = v == "0" and r.random() < .6; dbl = r.choice([0, 1]) if pre or r.random() < .3 else sz - 1; via = 1 if sz == 2 and not pre and r.random() < .2 else 0
                fl = (10 if pre else 0) + (0 if dbl == sz - 1 and r.random() < .7 else sz)
                return ("pdput", 0, p, 0 if via else fl, 1 if via else dbl, rows, 2, 0, 0, 0, 0, ods, ",".join([v] * nv)) + meta + ("", "|".join([lab] * 2) if lab else "", 0, -1, -1, "", via)
            for o in w:
                k = o["o"]; p = cs(o["p"])
                if k == "whole": L.append(pd(p, o["sz"], o["v"], o["lab"][0] if o["lab"] else ""))
                elif k == "part": L.append(("pdput", 0, p, 0, r.choice([0, 1]), rows, 2, o["j"][0], o["j"][1], o["r"][0], o["r"][1], ods, ",".join(["2"] * o["n"])) + meta + ("", "|".join(["b"] * o["nl"]), 0, -1, -1, "", 0))
                elif k == "put":
                    t = o["ty"]; c = o["c"]
                    if o["k"] == "pd": L.append(pd(p, 1 if t == 200 else 2, "1", ""))
                    elif t == 300: L.append(r.choice([("txput", 0, p, "=text one" if c == "t1" else "=another", "", 0, 0, "", "", r.choice([0, 1])), ("tximp", 0, p, "=line one" if c == "t1" else "7:300", 0)]))
                    elif t == 310: L.append(("txput", 0, p, "", "=a|b|c|d|", 2, 2, "=x|y|", "", 0))
                    elif t == 90: L.append(("arput", 0, p, 5, 3, 5, 2, "", r.choice([0, 1])))
                    elif t == 450: L.append(("tinput", 0, p, 3, 6, r.choice(["", "=ab|cd|"]), 9, "a", "b", "c", "d", "e", "f"))
                    else: L.append(("gdput", 0, p, t, 3, 5, r.choice([26, 1]), 2, 7 if t == 420 else 8, "MM", "src", "srs", "def", "UTC", 0, 0))
                elif k == "del": L.append(("del", 0, p))
                else: L.append((k, 0, p, cs(o["q"])))
                q = gen_rec.rcase(r, r.choice(P)); m = r.random()
                if rows and m < .25: a = gen_rec.rng(r, rows); b = gen_rec.rng(r, 2); L.append(("pdget", 0, q, r.choice([0, 0, 1, 2]), b[0], b[1], a[0], a[1], 0))
                elif m < .40: L.append((r.choice(["pdget"]), 0, q, 0, 0, 0, 0, 0, r.choice([0, 0, 1])))
                elif m < .50: L.append(("txget", 0, q, r.choice([0, 1]), 100))
                elif m < .56: L.append(("arget", 0, q, r.choice([0, 1])))
                elif m < .62: L.append(("gdget", 0, q, 1, r.choice([0, 1])))
                elif m < .66: L.append(("tinget", 0, q, 1))
                elif m < .72: L.append((r.choice(["chk", "type", "basics"]), 0, q))
                elif m < .75: L.append(("squeeze", 0, 0))
                elif m < .78: L += [("close", 0), ("open", 0, "@F.dss", 0, 0, 0, 0, 0)]
            for q in P: L += [("pdget", 0, q, 0, 0, 0, 0, 0, 0), ("txget", 0, q, 0, 100), ("arget", 0, q, 0), ("gdget", 0, q, 1, 0), ("tinget", 0, q, 1)]
            H.append(History("tour-%d" % len(H), L + [("cat", 0, 0, 0, 0, 0, ""), ("zcheck", 0)]))
        return H, n
    return gen
def MC(cfg, rows, frac, thorough=None): return Model("tour-" + cfg, "RecMC", "RecTrace", tour_histories(rows, frac), mccfg="RecMC_%s.cfg" % cfg, thorough_cfg=thorough and "RecMC_%s.cfg" % thorough)
ASM = ["one process; histories of up to about 50 calls on up to 6 names", "texts, arrays and grid cells are compared through 64 bit digests, paired data as exact decimal text"]
TECH = "TLA+ specification of the records and calls, explored with TLC and its transitions replayed on the real library; recorded traces of random histories on the real library validated against it with TLC"
NOTE = "Bounded: it explores, it does not prove the C code."
def P(pid, title, kind, models=(), q=1500, t=12000): return Prop(pid, title, list(models) + [Source("fuzz", "RecTrace", fuzz(kind, q, t))], assumptions=ASM, technique=TECH, note=NOTE)
PROPS = [
 P("D01", "Paired data come back as stored, whole and in parts", "pd", [MC("pd", 2, .4), MC("pd3", 3, .06)]),
 P("D02", "Texts and arrays come back as stored", "tx", [MC("mix", 2, 1)]),
 P("D03", "Grids and TINs come back as stored", "gd", [MC("mix", 2, 1)]),
 P("D04", "Locations belong to their watershed and site", "lc"),
]
