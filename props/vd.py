"""Elevations and vertical datums: Datum.tla / DatumTrace.tla."""
from common import *
import gen_vd, random
def fuzz(tier, seed):
    k = 1500 if tier == "quick" else 12000; a = seed * 100000 - 100000
    return [gen_vd.history(s) for s in range(a, a + k)]
def walks(out, tier, seed):
    E = {}
    for e in tour.parse(out): E.setdefault(repr(e), e)
    W, n = tour.walks(list(E.values()), seed=seed, maxlen=40, init={"loc": "none", "rec": {q: {"there": False, "nat": 0} for q in ("ts", "pd")}}, frac=1); r = random.Random(seed)
    return [gen_vd.replay(r, w, k) for k, w in enumerate(W)], n
PROPS = [Prop("T06", "Elevations keep their height through every vertical datum", [Model("tour-datum", "DatumMC", "DatumTrace", walks, thorough_cfg="DatumMC_big.cfg"), Source("fuzz", "DatumTrace", fuzz)],
  assumptions=["values and offsets are compared to three thousandths of a foot or metre", "histories of up to about 60 calls on up to two locations; values of magnitude below 1000"],
  technique="TLA+ specification of the datum rules, explored with TLC and its transitions replayed on the real library; recorded traces of random histories on the real library validated against it with TLC",
  note="Bounded: it explores, it does not prove the C code. Left open: storing without information about the datum but with permission to overwrite it, the datum named OTHER, and malformed information.")]
