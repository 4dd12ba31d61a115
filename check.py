#!/usr/bin/env python3
"""check.py ID quick|thorough        run the check of one property
   check.py --replay FILE             re-run a recorded violation
   check.py --shrink FILE             remove what the violation does not need
   check.py --list"""
import json, os, sys, time, traceback, hashlib, importlib, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "props")]
import harness as hn, build
from common import Prop, Source, ModelError

def load():
    P = {}
    for m in sorted(os.listdir(os.path.join(V, "props"))):
        if m.endswith(".py") and m not in ("common.py", "__init__.py"):
            for p in getattr(importlib.import_module(m[:-3]), "PROPS", []): P[p.id] = p
    return P

def known():
    """committed findings: one JSON object per line {property, sig, what} plus 'fixed:' lines"""
    out = []
    fn = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(fn):
        for ln in open(fn):
            ln = ln.strip()
            if ln.startswith("{"): out.append(json.loads(ln))
    return out

def run_source(src, hs):
    if src.runner: return src.runner(src, hs)
    exe = build.driver(src.driver)
    return hn.run_histories(exe, hs, env=src.env, **src.drv_kw)

def save_replay(pid, src, res, idx, why):
    h = res[0]; os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    key = hashlib.sha1(("\n".join(map(str, h.lines)) + src.name).encode()).hexdigest()[:10]
    fn = os.path.join(V, "replays", "%s-%s-%s.json" % (pid, src.name, key))
    json.dump({"property": pid, "source": src.name, "module": src.module, "history": h.name, "lines": h.lines, "meta": getattr(h, "meta", None),
               "rejected_event": idx, "event": res[1][idx][:2000] if idx < len(res[1]) else "", "why": why[:1500],
               "trace": res[1][max(0, idx - 30):idx + 1]}, open(fn, "w"), indent=1)
    return fn

def check(prop, tier, seed):
    t0 = time.time(); stats = {"states": 0, "distinct": 0, "transitions": 0, "traces": 0, "events": 0, "kinds": {}}; viol = []; samples = []; models = []
    kf = [k for k in known() if k["property"] == prop.id]; seen = {}
    def finding(r, idx):
        ev = r[1][idx] if idx < len(r[1]) else ""
        for k in kf:
            if re.search(k["sig"], ev) and re.search(k.get("history", ""), r[0].name): return k["what"]
    for src in prop.sources:
        ts = time.time()
        info = {}
        hs = src.gen(tier, seed, info) if src.model else src.gen(tier, seed)
        if src.model:
            stats["states"] += info["distinct"]; stats["transitions"] += info["states"]; models.append(info)
        if not hs: continue
        res = run_source(src, hs)
        for r in res:
            for ln in r[1]:
                m = re.match(r'\{"e":"([A-Za-z_0-9]+)"', ln)
                if m: stats["kinds"][m.group(1)] = stats["kinds"].get(m.group(1), 0) + 1
        bad, st = hn.check_parallel(src.module, res, src.cfg, jobs=src.jobs, env=src.tlcenv)
        stats["traces"] += len(res); stats["events"] += st["events"]; stats["states"] += st["states"]; stats["transitions"] += st["states"]
        if len(samples) < 6 and res:
            r = res[len(res) // 2]; samples.append({"source": src.name, "history": r[0].name, "script": [str(x)[:160] for x in r[0].lines[:12]], "accepted_events": len(r[1])})
        info2 = {"source": src.name, "histories": len(res), "events": st["events"], "rejected": len(bad), "seconds": round(time.time() - ts, 1)}
        samples_src.append(info2)
        # listed findings first: they neither stop the run nor hide another violation
        new = []
        for b in bad:
            w = finding(b[0], b[1])
            if w: seen[w] = seen.get(w, 0) + 1
            else: new.append(b)
        for r, idx, why in new[:6]:
            # report only what a second run of the same history repeats
            again = None
            for _ in range(src.retries):
                rr = run_source(src, [r[0]]); b2, _s = hn.check_traces(src.module, rr, src.cfg, maxbad=1, env=src.tlcenv)
                if b2 and not finding(b2[0][0], b2[0][1]): again = b2[0]; break
            if again is None:
                print("NOTE: rejection of %s not repeated, ignored" % r[0].name); continue
            viol.append((src, again))
            if len(viol) >= 3: break
        if viol: break
    for w in seen: print("KNOWN-FINDING: property=%s %s" % (prop.id, w))
    return viol, stats, samples, models, time.time() - t0
samples_src = []

def main():
    a = sys.argv[1:]
    P = load()
    if a[:1] == ["--list"]: print("\n".join(sorted(P))); return 0
    if a[:1] == ["--replay"]:
        d = json.load(open(a[1])); p = P[d["property"]]; src = [s for s in p.sources if s.name == d["source"]][0]
        h = hn.History(d["history"], d["lines"]); h.meta = d.get("meta")
        rr = run_source(src, [h]); b, _ = hn.check_traces(src.module, rr, src.cfg, maxbad=1, env=src.tlcenv)
        if b: print("rejected at event", b[0][1]); print("\n".join(x[:600] for x in b[0][0][1][max(0, b[0][1] - 3):b[0][1] + 1])); print(b[0][2][-1500:]); return 1
        print("accepted"); return 0
    if a[:1] == ["--shrink"]:
        import shrink
        d = json.load(open(a[1])); p = P[d["property"]]; src = [s for s in p.sources if s.name == d["source"]][0]
        h = hn.History(d["history"], d["lines"]); h.meta = d.get("meta"); k, ls = shrink.shrink(src, run_source, h); print(k); print("\n".join(ls))
        hh = hn.History("x", ls); hh.meta = h.meta
        print("\n".join(x[:400] for x in run_source(src, [hh])[0][1])); return 0
    pid = a[0]; tier = a[1] if len(a) > 1 else hn.TIER; prop = P[pid]; seed = hn.SEED
    viol, stats, samples, models, wall = check(prop, tier, seed)
    rep = 0; vs = []
    for src, (r, idx, why) in viol:
        ev = r[1][idx] if idx < len(r[1]) else ""
        fn = save_replay(pid, src, r, idx, why); rep += 1
        print("rejected: %s event %d: %s" % (r[0].name, idx, ev[:500]))
        if why: print(why[-800:])
        print("VIOLATION property=%s replay=%s" % (pid, fn))
        vs.append({"replay": fn, "event": ev[:300]})
    cov = {"states": stats["states"], "transitions": stats["transitions"], "traces_validated_against_impl": stats["traces"],
           "events_validated": stats["events"], "event_kinds": stats["kinds"], "models": models, "sources": samples_src, "samples": samples, "rejected": vs}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.level, "coverage": cov, "assumptions": prop.assumptions,
          "wall_s": round(wall, 2), "violations": len(vs)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d histories, %d events, %d model states, %.1f s: %s" % (pid, tier, stats["traces"], stats["events"], sum(m["distinct"] for m in models), wall, "VIOLATED" if rep else "held"))
    return 1 if rep else 0
if __name__ == "__main__":
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException: traceback.print_exc(); sys.exit(3)
