"""Properties of time series: TsData.tla / TsTrace.tla."""
from common import *
import gen_ts, random
SKIP = {}
def fuzz(mode, quick, thorough, off=0):
    def gen(tier, seed):
        k = quick if tier == "quick" else thorough
        return [gen_ts.history(s, mode=mode) for s in range(off + seed * 100000 - 100000, off + seed * 100000 - 100000 + k) if s not in SKIP.get(mode, ())]
    return gen

def tour_histories(E, day, ns, before, frac, prof=0):
    """histories from the transitions of TsMC: slots around the end of `day` (days since 31Dec1899)"""
    reg = not E.startswith("IR"); kd = gen_ts.kind(E)
    # the same walks on other intervals whose blocks end on that day
    same = {"year": ["1DAY", "1DAY", "12HOUR", "6HOUR", "1HOUR", "15MINUTE", "10MINUTE", "1MINUTE", "1MONTH", "SEMI-MONTH", "TRI-MONTH", "5SECOND"]}.get(kd) if reg else ["IR-YEAR", "IR-YEAR", "IR-MONTH", "IR-DAY", "IR-DECADE", "IR-CENTURY"]
    def gen(out, tier, seed):
        Es = tour.parse(out); W, n = tour.walks(Es, seed=seed, maxlen=40, frac=frac if tier == "quick" else 1); r = random.Random(seed); H = []
        for k, w in enumerate(W):
            I = r.choice(same); dbl = r.choice([0, 1, 1]); p = "/A/T%d/FLOW/%%s/%s/%s/" % (k % 7, I, r.choice(["", "OBS"]))
            L = [("open", 0, "@F.dss", r.choice([0, 0, 2, 4]), 0, 0, 0, 0)]; vals = {"M": "M", "1": "1", "2": r.choice(["2.5", "-3", "2"])}
            tail = (",".join(str(x) for x in range(1, prof + 1)), "m") if prof else ()
            val = lambda x: ",".join([vals[x]] + (["M" if x == "M" or r.random() < .1 else str(float(vals[x]) + 10 * j) for j in range(1, prof)]))
            off = r.choice([0, 0, 0, 1]) and {"1DAY": 3600, "12HOUR": 600, "1MONTH": 86400, "1HOUR": 60}.get(I, 0)
            def at(i):
                j = i - before; e = gen_ts.slot_end(I, day, j)
                if off: e = gen_ts.slot_end(I, day, j - 1); e = gen_ts.nrm(e[0], e[1] + off)
                return e
            def notes(kind, idx):
                t = [str(i) for i in idx]; c = "|".join("n" + x for x in t) + "|"
                return (1 if kind in ("q", "qc") else 0, ",".join(t) if kind in ("q", "qc") else "", 1 if kind == "i" else 0, ",".join(t) if kind == "i" else "", c if kind in ("c", "qc") else "")
            inst = lambda i: (i - before) * 21600
            for o in w:
                if o["o"] == "put":
                    via = 1 if o["k"] in ("", "q") and r.random() < .15 and not prof else 0
                    d, t, y = gen_ts.inst(r, at(o["i"])); idx = range(o["i"], o["i"] + len(o["v"]))
                    L.append(("tsput", 0, p % "", d, t, y, o["f"], dbl, ",".join(val(x) for x in o["v"]), "CFS", "INST-VAL", "") + notes(o["k"], idx) + (via, "") + tail)
                elif o["o"] == "irput":
                    idx = [i + 1 for i, x in enumerate(o["v"]) if x]; base = day + 1; g = 60; c = gen_ts.civ(base)
                    L.append(("irput", 0, p % "", gen_ts.datetxt(r, base), "%d,%d,%d" % (c.year, c.month, c.day), g, ",".join(str(inst(i) // g) for i in idx), o["f"], dbl, ",".join(val(o["v"][i - 1]) for i in idx), "CFS", "INST-VAL", "") + notes(o["k"], idx) + (0,) + tail)
                else: 
                    b = gen_ts.civ(day + (1 if gen_ts.civ(day + 1).strftime("%d%b%Y").upper() == o["b"] else 0)); y, m, d = b.year, b.month, b.day; bk = gen_ts.kind(I)
                    if bk != "day": d = 1
                    if bk in ("year", "decade", "century"): m = 1
                    if bk == "decade": y -= y % 10
                    if bk == "century": y -= y % 100
                    L.append(("del", 0, p % ("%02d%s%04d" % (d, gen_ts.D.date(2000, m, 1).strftime("%b").upper(), y))))
                if r.random() < .5:
                    if reg: a, b = gen_ts.inst(r, at(1)), gen_ts.inst(r, at(ns))
                    else: a, b = (gen_ts.inst(r, gen_ts.nrm(day + 1, inst(i))) for i in (1, ns))
                    L.append(("tsget", 0, p % "", a[0], a[1], b[0], b[1], a[2], b[2], r.choice([0, 0, 1, 2]), r.choice([0, 0, -1]) if reg else r.choice([0, 0, 1, 3]), 1, 0, 0, 0))
                elif r.random() < .3: L.append(("tsrange", 0, p % "", 1))
                elif r.random() < .1: L.append(("cat", 0, 0, 0, 0, 0, ""))
            L += [("tsget", 0, p % "", "", "", "", "", "", "", 0, 0, 1, 1, 0, 0), ("cat", 0, 0, 0, 0, 0, ""), ("zcheck", 0)]
            H.append(History("tour-%d" % k, L))
        return H, n
    return gen
def MC(cfg, E, ns, before, frac, thorough=None, prof=0): return Model("tour-" + cfg + ("-prof" if prof else ""), "TsMC", "TsTrace", tour_histories(E, 36524, ns, before, frac, prof), mccfg="TsMC_%s.cfg" % cfg, thorough_cfg=thorough and "TsMC_%s.cfg" % thorough)
ASM = ["one process; histories of up to about 40 calls on one or two series, windows of up to some hundred values around a block boundary",
       "values are compared as exact decimal text"]
TECH = "TLA+ specification of slots, blocks and merging, explored with TLC; model transitions replayed on the real library and recorded traces of random histories validated against it"
NOTE = "Bounded: it explores, it does not prove the C code."
def P(pid, title, mode, models=(), q=450, t=8000): return Prop(pid, title, list(models) + [Source("fuzz", "TsTrace", fuzz(mode, q, t))], assumptions=ASM, technique=TECH, note=NOTE)
PROPS = [
 P("T01", "Regular time series come back as stored", "reg", [MC("reg", "1DAY", 4, 2, .5, "regt")]),
 P("T02", "Quality and notes stay with their values", "notes", [MC("notes", "1DAY", 3, 1, .12), MC("irrn", "IR-YEAR", 3, 2, 1)]),
 P("T03", "Time series blocks, ranges and sizes", "meta"),
 P("T05", "Time series profiles", "prof", [MC("reg", "1DAY", 4, 2, .06, prof=2), MC("irr", "IR-YEAR", 4, 2, .06, prof=3)]),
 P("T04", "Irregular time series", "irr", [MC("irr", "IR-YEAR", 4, 2, .3)]),
]
