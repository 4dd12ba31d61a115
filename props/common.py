import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import harness, build, tour
from harness import History, line
class ModelError(Exception): pass

class Prop:
    """A property and the sources of evidence for it."""
    def __init__(self, pid, title, sources, technique="", note="", level="model_checking", assumptions=()):
        self.id = pid; self.title = title; self.sources = sources
        self.technique = technique; self.note = note; self.level = level; self.assumptions = list(assumptions)

class Source:
    """Histories for the real code, and the trace specification which judges what the code did."""
    model = False
    def __init__(self, name, module, gen, driver="drv", cfg=None, env=None, drv_kw=None, runner=None, jobs=7, tlcenv=None, retries=2):
        self.name = name; self.module = module; self.gen = gen; self.driver = driver; self.cfg = cfg; self.env = env or {}
        self.drv_kw = drv_kw or {}; self.runner = runner; self.jobs = jobs; self.tlcenv = tlcenv; self.retries = retries

def run_model(module, cfg, workers=1, timeout=700, heap="4g", args=()):
    """Exhaustive exploration. A failure here is an error of the model, not of the code."""
    rc, out = harness.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
    g = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", out)
    if rc != 0 or not g: raise ModelError(re.sub(r'"@T .*\n', "", out)[-3000:])
    n = lambda x: int(x.replace(",", ""))
    d = re.findall(r"depth of the complete state graph search is (\d+)", out)
    return out, {"module": module, "cfg": cfg or module + ".cfg", "states": n(g[-1][0]), "distinct": n(g[-1][1]), "depth": int(d[-1]) if d else None, "complete": n(g[-1][2]) == 0}

class Model(Source):
    """A model explored by TLC; `make(out, tier, seed)` turns the printed transitions into histories for the real code (or returns [])."""
    model = True
    def __init__(self, name, mc, trace, make=None, mccfg=None, workers=1, mctimeout=600, thorough_cfg=None, **kw):
        Source.__init__(self, name, trace, None, **kw); self.mc = mc; self.mccfg = mccfg; self.make = make; self.workers = workers; self.mctimeout = mctimeout; self.thorough_cfg = thorough_cfg
        self.gen = self._gen
    def _gen(self, tier, seed, info):
        cfg = self.thorough_cfg if tier == "thorough" and self.thorough_cfg else self.mccfg
        out, i = run_model(self.mc, cfg, self.workers, self.mctimeout); info.update(i)
        if not self.make: return []
        hs, n = self.make(out, tier, seed); info["transitions_replayed"] = n
        return hs
