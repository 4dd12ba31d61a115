"""Properties of the record store: Store.tla / StoreTrace.tla."""
import random
from common import *
import gen_store, gen_chg

NM = [("/a/b/c//%s/%s/" % (e, f)) for e in ("E1", "E2") for f in ("F1", "LONG F PART NUMBER TWO", "F3")]
COLL = ["/C/AQAQ/H///%s/", "/C/B2B2/H///%s/", "/C/AQB2/H///%s/"]

def tour_histories(quick=1.0, obs=6):
    def gen(out, tier, seed):
        frac = quick if tier == "quick" else 1.0; E = tour.parse(out); W, n = tour.walks(E, seed=seed, frac=frac); r = random.Random(seed); H = []
        for k, w in enumerate(W):
            if r.random() < .35: base = [c % "V" for c in COLL]; ty = 300
            else: base = r.sample(NM, 3); ty = r.choice([90, 300, 450, 600])
            m = {"a": base[0], "b": base[1], "x": base[2]}
            hs = r.choice([0, 2, 2, 8]); bs = r.choice([100, 150]) if hs else 0
            L = [("open", 0, "@F.dss", r.choice([0, 0, 2, 4]), 0, hs, bs, 0)]
            if r.random() < .3: L.append(("fset", 0, "reclaim", r.choice([2, 3])))
            allp = list(m.values())
            def observe(): 
                L.append(("cat", 0, r.choice([0, 0, 1]), 0, 0, 0, "")); L.extend(("get", 0, gen_store.rcase(r, p)) for p in allp); L.append(("cnt", 0))
            rec = any(x[0] == "fset" for x in L)
            for i, o in enumerate(w):
                c = o["o"]; p = m.get(o.get("p")); q = m.get(o.get("q"))
                if c == "put": 
                    if rec and r.random() < .3: pass
                    L.append(gen_store.put(r, 0, gen_store.rcase(r, p))[:3] + (ty,) + gen_store.put(r, 0, p)[4:])
                elif c in ("ren", "dup", "aadd"): L.append((c, 0, gen_store.rcase(r, p), gen_store.rcase(r, q)))
                elif c == "squeeze": L.append((c, 0, r.choice([0, 1])))
                else: L.append((c, 0, gen_store.rcase(r, p)))
                if i % obs == obs - 1: observe()
                if r.random() < .04: L += [("close", 0), ("open", 0, "@F.dss", 0, 0, 0, 0, 0)]
            observe(); L.append(("zcheck", 0)); H.append(History("tour-%d" % k, L))
        return H, n
    return gen

ALL = ("del", "undel", "ren", "dup", "alias", "reopen", "multi", "squeeze", "cat")
SKIP = set()
def fuzz(focus, quick, thorough, off=0, n=60, feats=ALL):
    def gen(tier, seed):
        k = quick if tier == "quick" else thorough
        return [gen_store.history(s, n, feats, focus=focus) for s in range(off + seed * 100000 - 100000, off + seed * 100000 - 100000 + k) if s not in SKIP]
    return gen

ASM = ["one process; histories of up to about 90 calls on up to 16 names", "content compared through 64 bit digests of each section"]
MC = lambda ops, frac: Model("tour-" + ops, "StoreMC", "StoreTrace", tour_histories(frac), mccfg="StoreMC_%s.cfg" % ops)
TECH = "TLA+ model checked with TLC; all model transitions replayed on the real library, and recorded traces of random histories validated against the trace specification"
NOTE = ("StoreMC.tla is explored completely for 3 names (safety invariants and action properties); every transition of it is executed on the real library and every recorded call of these "
        "and of seeded random histories (up to 16 names, all layouts) must be a step of Store.tla. Bounded: it explores, it does not prove the C code. Content is compared through 64 bit digests.")
def P(pid, title, focus, k, ops="all", frac=.4):
    return Prop(pid, title, [MC(ops, frac), Source("fuzz", "StoreTrace", fuzz(focus, 1800, 12000, k * 20000))], assumptions=ASM, technique=TECH, note=NOTE)
PROPS = [
 P("R01", "Reads return what was last written", "put", 0),
 P("R02", "Deleting and undeleting records", "del", 1),
 P("R03", "Renaming records", "ren", 2),
 P("R04", "Copying records and files", "dup", 3),
 P("R05", "Aliases", "alias", 4),
 P("R06", "Catalogues list exactly the records", "cat", 5),
 Prop("R10", "Write times, changes since a snapshot, and check sums", [
   Source("fuzz", "ChangeTrace", lambda tier, seed: [gen_chg.history(s) for s in range(seed * 100000, seed * 100000 + (1500 if tier == "quick" else 9000))])],
   assumptions=ASM + ["every call runs in milliseconds of its own (the granularity of the stored times)"], technique=TECH, note="ChangeTrace.tla adds the times, snapshots and check sums to the trace specification of the record store. " + NOTE),
 P("R08", "Reopening, access modes and file layout do not matter", "reopen", 7),
 P("R09", "Squeezing keeps every record", "squeeze", 8),
]
