"""Histories with a clock: the random histories of the record store with observations of write times, changes and check sums in between."""
import random
from harness import History
import gen_store
from gen_store import rcase, filt

OBS = ("wt", "wtf", "catw", "crc", "snap", "chg")
def history(seed, n=40):
    r = random.Random("chg%s" % seed)
    # renaming makes undelete ambiguous (see Store.tla): here a history has the one or the other
    feats = ("del", r.choice(["undel", "ren", "ren"]), "dup", "alias", "reopen", "multi", "squeeze", "cat")
    h0 = gen_store.history("c%s" % seed, n, feats=feats, focus=r.choice([None, "put", "del", "ren", "dup", "alias", "squeeze"]))
    L = [("tick", 1)]; P = []; opened = []; snaps = {}; recent = []
    files = {}
    # a detuned hash does not survive closing the file, and a snapshot holds hashes
    reopens = any(x.split("\t")[0] in ("close", "squeeze") for x in h0.lines)
    for ln in h0.lines:
        if reopens and ln.split("\t")[:3:2] == ["fset", "detune"]: continue
        t = ln.split("\t"); c = t[0]
        L.append(ln)
        if c == "open":
            if int(t[1]) not in opened: opened.append(int(t[1])); 
            files[int(t[1])] = t[2]
            continue
        if c == "close":
            if int(t[1]) in opened: opened.remove(int(t[1]))
            snaps.pop((7, int(t[1])), None); continue
        if c == "squeeze": snaps.pop((7, int(t[1])), None)     # a squeezed file is opened anew: what the handle kept is gone
        for x in t[2:]:
            if x.count("/") == 7 and x.upper() not in [y.upper() for y in P]: P.append(x)
        if not opened or not P: continue
        p = lambda: rcase(r, r.choice(P[-3:] if r.random() < .5 else P))
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            h = r.choice(opened); k = r.random()
            if k < .22: L.append(("wt", h, p(), r.randrange(8)))
            elif k < .3: L.append(("wtf", h))
            elif k < .45: L.append(("catw", h, r.randrange(8), r.choice([-2, -1, 0, 1, 2]), r.choice(["", "", filt(r, p())]), r.choice([0, 0, 1])))
            elif k < .62: L.append(("crc", h, p()))
            elif k < .66: L.append(("now", h, r.randrange(8)))
            elif k < .76:
                s = r.choice([0, 1, 7]); q = r.choice(["", "", "", filt(r, p())]); crc = r.choice([0, 1, 1])
                snaps[(s, h if s == 7 else files[h])] = (q, crc)
                if s != 7:
                    for z in [z for z in snaps if z[0] == s and z[1] != files[h]]: del snaps[z]
                L.append(("snap", h, s, q, crc))
            else:
                ok = [z for z in snaps if z[1] == (h if z[0] == 7 else files[h])]
                if ok: z = r.choice(ok); L.append(("chg", h, z[0], snaps[z][0], snaps[z][1]))
    return History("chg-%s" % seed, L)
