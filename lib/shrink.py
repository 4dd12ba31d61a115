"""Shrinks a recorded violation: removes script lines while the trace specification still rejects the same kind of event."""
import json, re, sys, concurrent.futures as cf
import harness as hn
def kind(ev): 
    m = re.match(r'\{"e":"(\w+)"', ev); s = re.search(r'"st":(-?\d+)', ev); return (m.group(1) if m else "?") + (":" + s.group(1) if s else "")
def shrink(src, run_source, h, keep=1, same=True):
    def test(ls):
        hh = hn.History("x", ls); hh.meta = getattr(h, "meta", None)
        try:
            rr = run_source(src, [hh]); b, _ = hn.check_traces(src.module, rr, src.cfg, maxbad=1, env=src.tlcenv)
        except Exception: return None
        return kind(b[0][0][1][b[0][1]]) if b else None
    cur = list(h.lines); k0 = test(cur); 
    if k0 is None: return None, cur
    chunk = max(1, len(cur) // 4)
    while chunk >= 1:
        j = keep
        while j < len(cur):
            cands = [j + q * chunk for q in range(8) if j + q * chunk < len(cur)]
            with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda a: test(cur[:a] + cur[a + chunk:]), cands))
            hit = [a for a, x in zip(cands, rs) if x == k0]
            if hit: j = hit[0]; cur = cur[:j] + cur[j + chunk:]
            else: j = cands[-1] + chunk
        chunk //= 2
    return k0, cur
