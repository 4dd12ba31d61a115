"""Random histories of elevations in several vertical datums."""
import json, random, gen_store
from harness import History
from gen_rec import entire
rcase = gen_store.rcase
U = -9999999; NAMES = ["NAVD-88", "NGVD-29", "LOCAL", "PENSACOLA"]
NOV = {"nat": "UNSET", "u": "", "o29": U, "e29": 0, "o88": U, "e88": 0}
def vdi(nat, u, o29, e29, o88, e88): return {"nat": nat, "u": u, "o29": o29, "e29": e29, "o88": o88, "e88": e88, "exact": {}}
def tomilli(x): return int(round(x * 1000))
def inm(v):  # the same information in the other unit
    w = dict(v); k = 0.3048 if v["u"] == "ft" else 1 / 0.3048; w["u"] = "m" if v["u"] == "ft" else "ft"; w["exact"] = {}
    for o in ("o29", "o88"):
        if v[o] != U: x = v["exact"].get(o, v[o] / 1000) * k; w["exact"][o] = x; w[o] = tomilli(x)
    return w
def xml(v, r):
    t = ['<vertical-datum-info unit="%s">' % v["u"]]; nat = v["nat"]
    t.append("<native-datum>%s</native-datum>" % nat if nat in NAMES[:2] else "<native-datum>OTHER</native-datum><local-datum-name>%s</local-datum-name>" % nat)
    for o, e, d in (("o29", "e29", "NGVD-29"), ("o88", "e88", "NAVD-88")):
        if v[o] != U and d != nat: t.append('<offset estimate="%s"><to-datum>%s</to-datum><value>%s</value></offset>' % ("true" if v[e] else "false", d, "%.6f" % v["exact"].get(o, v[o] / 1000)))
    return (r.choice(["", "  "])).join(t) + "</vertical-datum-info>"
def clean(v):
    w = {k: v[k] for k in NOV}
    for o, e, d in (("o29", "e29", "NGVD-29"), ("o88", "e88", "NAVD-88")):
        if w[o] == U or w["nat"] == d: w[e] = 0
    return w
def base_vdis(r):
    """a pool of vertical datum information: some equal, some alike, some in conflict"""
    P = [vdi("NAVD-88", "ft", r.choice([-1500, -457, U, 0, 820]), 0, 0, 0), vdi("NGVD-29", "ft", 0, 0, r.choice([2250, -300, U]), r.choice([0, 1])), vdi("LOCAL", r.choice(["ft", "m"]), r.choice([500, U, 0]), 0, r.choice([-1250, U]), 1)]
    a = r.choice(P); P.append(inm(a))
    if r.random() < .6:
        b = dict(r.choice([x for x in P if not x["exact"]])); b["exact"] = {}
        o = "o88" if b["nat"] == "NGVD-29" else "o29"; b[o] = r.choice([U, 1000, b[o] if b[o] != U else 70]); b["e" + o[1:]] = r.choice([0, 1]); P.append(b)
    if r.random() < .3: P.append(vdi("PENSACOLA", "m", 300, 0, 700, 1))
    return P
def given(r, v, cur, units, ax=0):
    """-> header text, supplemental text, unit texts, JSON: cur named in one way (and perhaps contradicted by a weaker one)"""
    pre = r.choice(["", "", "~"]); hd = ""; head = ""; sup = ""; vd = ["", ""]; us = list(units)
    if v:
        x = "verticalDatumInfo:%s;" % xml(v, r)
        if r.random() < .6: head = x
        else: sup = pre + x
    if cur is not None:
        if r.random() < .5: hd = cur
        else:
            on = {0: [1], 1: [0], 2: [1], 3: [0, 1]}[ax]
            for i in on: vd[i] = cur; us[i] = "U=%s|V=%s" % (units[i], cur) if r.random() < .8 else "V=%s|U=%s" % (cur, units[i])
            if r.random() < .2: hd = r.choice(NAMES[:3])
    if hd: head = head + "verticalDatum:%s;" % hd if r.random() < .5 else "verticalDatum:%s;" % hd + head
    if head and r.random() < .2: head += "note:x y;"
    if head.startswith("verticalDatumInfo") and pre: head = pre + head
    g = {"vdi": clean(v) if v else NOV, "hd": hd, "ui": units[0], "ud": units[1], "vi": vd[0], "vd": vd[1], "ax": ax}
    return head, sup, us, json.dumps(g)
def val(r): return r.choice([0, 1000, 250000, 123456, -12345, 900001]) if r.random() < .4 else r.randrange(-50000, 900000)
class Rec:
    def __init__(s, name, kind, ax, units): s.p = name; s.k = kind; s.ax = ax; s.u = units; s.no = s.nc = 0; s.part = s.base = False
def recs(r, locs):
    R = []
    for a, b in locs:
        for j in range(r.choice([1, 2, 3])):
            k = r.choice(["reg", "irr", "pd", "pd"]); u = r.choice([("ft", "ft")] * 3 + [("m", "m"), ("FEET", "meters"), ("ft", "cfs"), ("cfs", "ft"), ("m", "ft")])
            f = "V%d" % len(R)
            if k == "reg": R.append(Rec("/%s/%s/%s//1DAY/%s/" % (a, b, r.choice(["ELEV", "Elev-Pool", "ELEVATION"]), f), k, 0, u))
            elif k == "irr": R.append(Rec("/%s/%s/%s//IR-YEAR/%s/" % (a, b, r.choice(["ELEV", "ELEV-TAIL"]), f), k, 0, u))
            else:
                c, ax = r.choice([("ELEV-FLOW", 1), ("FLOW-ELEV", 2), ("ELEV-ELEV", 3), ("Elev-Area", 1), ("STAGE-ELEVATION", 2)]); R.append(Rec("/%s/%s/%s///%s/" % (a, b, c, f), k, ax, u))
    return R
def days(r, irr):
    if irr: n = r.choice([1, 2, 3, 5]); return sorted(r.sample(range(-8, 9), n))
    a = r.randrange(-8, 6); return list(range(a, a + r.choice([1, 2, 3, 6])))
def put(r, x, v, cur, dbl=None):
    dbl = r.choice([0, 1]) if dbl is None else dbl; head, sup, us, g = given(r, v, cur, x.u, x.ax); p = rcase(r, x.p); part = (0, 0, 0, 0); nc = 1
    if x.k == "pd":
        if not x.no: x.no, x.nc = r.choice([1, 2, 3, 5, 8]), r.choice([1, 1, 2, 3])
        if x.part and x.base and r.random() < .5:
            so = r.randrange(1, x.no + 1); eo = r.randrange(so, x.no + 1); sc = r.randrange(1, x.nc + 1); ec = r.randrange(sc, x.nc + 1); part = (0, 0, 0, 0) if entire(x.no, x.nc, sc, ec, so, eo) else (sc, ec, so, eo)
        no, nc = (x.no, x.nc) if part == (0, 0, 0, 0) else (eo - so + 1, ec - sc + 1); n = x.no
        first = ",".join(str(val(r)) for _ in range(n)); vals = [str(val(r)) if r.random() < .85 else r.choice("MNO") for _ in range(no * nc)]
        return ("vdput", 0, p, "pd", dbl, first, ",".join(vals), us[0], us[1], head, sup, x.nc) + part + (g,)
    d = days(r, x.k == "irr"); vals = [str(val(r)) if r.random() < .8 or t in (d[0], d[-1], 0, 1) else r.choice("MNO") for t in d]
    return ("vdput", 0, p, x.k, dbl, ",".join(map(str, d)) if x.k == "irr" else d[0], ",".join(vals), us[0], us[1], head, sup, 1, 0, 0, 0, 0, g)
def get(r, x):
    if x.k == "pd":
        part = (0, 0, 0, 0)
        if x.no and r.random() < .3:
            so = r.randrange(1, x.no + 1); sc = r.randrange(1, x.nc + 1); part = (sc, r.randrange(sc, x.nc + 1), so, r.randrange(so, x.no + 1))
        return ("vdget", 0, rcase(r, x.p), "pd", r.choice([0, 1, 2]), 0, 0) + part
    a = r.randrange(-9, 8); return ("vdget", 0, rcase(r, x.p), x.k, r.choice([0, 1, 2]), a if r.random() < .5 else -10, r.randrange(a, 10) if r.random() < .5 else 10, 0, 0, 0, 0)
def history(seed):
    r = random.Random("vd%d" % seed); locs = r.sample([("BASIN", "LOC 1"), ("BASIN", "LOC 2"), ("", "B"), ("A", "")], r.choice([1, 1, 2])); R = recs(r, locs); P = base_vdis(r)
    L = [("open", 0, "@F.dss", r.choice([0, 0, 3]), 0, 0, 0, 0)]; ow = 0; want = "UNSET"
    for x in R:
        if x.k == "pd" and r.random() < .5: L.append(put(r, x, None, None)); x.part = x.base = True  # there from the start, so that parts of it can be stored
    for _ in range(r.randrange(6, 26)):
        m = r.random(); x = r.choice(R)
        if m < .45:
            v = r.choice(P) if r.random() < .5 else None; cur = r.choice(NAMES[:2] * 2 + ["LOCAL", "UNSET", "PENSACOLA"]) if r.random() < .6 else None
            if ow and not v: L.append(("zset", "VDOW", "", 0)); ow = 0
            L.append(put(r, x, v, cur))
        elif m < .75: L.append(get(r, x))
        elif m < .87: want = r.choice(NAMES[:3] + ["UNSET", "UNSET"]); L.append(("zset", "VDTM", want, 0))
        elif m < .91: ow = 1 - ow; L.append(("zset", "VDOW", "", ow))
        elif m < .96: L.append(("vdloc", 0, rcase(r, x.p)))
        elif m < .98: L += [("close", 0), ("open", 0, "@F.dss", 0, 0, 0, 0, 0)]
        else: L.append(("squeeze", 0, 0))
    for w in ("UNSET", "NAVD-88", "NGVD-29"):
        L.append(("zset", "VDTM", w, 0))
        for x in R: L.append(get(r, x))
    return History("vd-%d" % seed, L + [("vdloc", 0, x.p) for x in R])

MODEL = {"none": None, "n88": vdi("NAVD-88", "ft", -1500, 0, 0, 0), "n88b": vdi("NAVD-88", "ft", -1700, 0, 0, 0), "n88e": vdi("NAVD-88", "ft", -1500, 1, 0, 0), "n88x": vdi("NAVD-88", "ft", U, 0, 0, 0),
         "n29": vdi("NGVD-29", "ft", 0, 0, 2250, 1), "loc": vdi("LOCAL", "ft", 500, 0, U, 0), "loc2": vdi("PENSACOLA", "m", 300, 0, 700, 0)}
MODEL["n88m"] = inm(MODEL["n88"])
def replay(r, w, k):
    """a walk through DatumMC"""
    loc = r.choice([("BASIN", "LOC 1"), ("", "B")]); tk = r.choice(["reg", "irr"]); c, ax = r.choice([("ELEV-FLOW", 1), ("FLOW-ELEV", 2), ("ELEV-ELEV", 3)]); un = ("ft", "ft")
    X = {"ts": Rec("/%s/%s/ELEV//%s/F/" % (*loc, "1DAY" if tk == "reg" else "IR-YEAR"), tk, 0, un), "pd": Rec("/%s/%s/%s///F/" % (*loc, c), "pd", ax, un)}
    L = [("open", 0, "@F.dss", 0, 0, 0, 0, 0)]; ow = 0; want = None
    for o in w:
        x = X[o["r"]]
        if o["ow"] != ow: ow = o["ow"]; L.append(("zset", "VDOW", "", ow))
        if r.random() < .3: cur = None; L.append(("zset", "VDTM", o["cur"], 0)); want = o["cur"]
        else: cur = o["cur"]
        v = MODEL[o["k"]]; head, sup, us, g = given(r, v, cur, x.u, x.ax); dbl = r.choice([0, 1])
        if x.k == "pd": L.append(("vdput", 0, x.p, "pd", dbl, "100000,100500", "100000,100000", us[0], us[1], head, sup, 1, 0, 0, 0, 0, g))
        else: L.append(("vdput", 0, x.p, x.k, dbl, 0, "100000,100000", us[0], us[1], head, sup, 1, 0, 0, 0, 0, g) if x.k == "reg" else ("vdput", 0, x.p, x.k, dbl, "0,1", "100000,100000", us[0], us[1], head, sup, 1, 0, 0, 0, 0, g))
        if r.random() < .5:
            want = r.choice(NAMES[:3] + ["UNSET"]); L.append(("zset", "VDTM", want, 0)); L.append(get(r, r.choice(list(X.values()))))
        if r.random() < .15: L.append(("vdloc", 0, x.p))
    for q in ("UNSET", "NAVD-88", "NGVD-29", "LOCAL"):
        L.append(("zset", "VDTM", q, 0)); L += [get(r, x) for x in X.values()]
    return History("tour-%d" % k, L + [("vdloc", 0, X["ts"].p)])
