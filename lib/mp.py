"""Several processes on the same files, interleaved at their system calls.
Script lines:  P proc cmd...   give the (idle) process a command
               S proc n        let it do n system calls      W proc   until its command ends or it waits for another
               K proc          kill it                        T proc n write n bytes of its next write, then kill
               X proc kind [h]  its next write (with h: also of the file header) fails (enospc, eio, short)
At the end the commands under way are finished (closing idle processes if the others wait for them).
Trace: {"e":"call","i":id,"c":proc,"r":result event,"ov":[names other processes may be changing meanwhile]},
       {"e":"ret","i":id}, {"e":"lost","i":id,"c":proc,...} (killed), {"e":"stuck"}."""
import json, os, re, signal, socket, subprocess, concurrent.futures as cf
import harness as hn, build
def exe(): return build.driver("drvmp")
READ = {"get", "cnt", "cat", "hcat", "chk", "type", "htype", "basics", "zcheck", "alist", "aprim", "open", "close", "note", "fset", "tsget", "txget", "pdget", "arget", "tsrange", "inq"}

class Proc:
    def __init__(s, exe, wd, n):
        a, b = socket.socketpair(); s.n = n
        ev = dict(os.environ); ev.update(TZ="UTC", TMPDIR=wd, MALLOC_PERTURB_="165")
        s.p = subprocess.Popen([exe, wd], cwd=wd, stdin=b.fileno(), stdout=b.fileno(), stderr=None if "DRV_LOG" in ev else subprocess.DEVNULL, env=ev); b.close()
        a.settimeout(40); s.k = a; s.buf = b""; s.busy = None; s.state = "idle"; s.dead = False; s.opened = set(); s.expect = False
    def send(s, t): s.k.sendall(t.encode(errors="surrogateescape") + b"\n")
    def recv(s):
        while b"\n" not in s.buf:
            try: d = s.k.recv(1 << 16)
            except socket.timeout: return None
            except OSError: d = b""
            if not d: return None
            s.buf += d
        l, s.buf = s.buf.split(b"\n", 1); return l.decode(errors="replace")
    def kill(s):
        if not s.dead:
            try: s.p.kill()
            except OSError: pass
            s.p.wait(); s.k.close(); s.dead = True

class Run:
    def __init__(s, exe, h, wd, tag):
        s.exe = exe; s.h = h; s.wd = wd; s.tag = tag; s.P = {}; s.ev = []; s.ops = []; s.crash = None; s.calls = {}; s.where = []
    def proc(s, n):
        if n not in s.P or s.P[n].dead: s.P[n] = Proc(s.exe, s.wd, n)
        return s.P[n]
    def start(s, n, toks):
        p = s.proc(n)
        if p.busy is not None or (toks[0] == "open") == (toks[1] in p.opened): return   # busy; open already; not open
        toks = [t.replace("@F", s.tag) for t in toks]
        i = len(s.ops); s.ops.append({"c": n, "cmd": toks, "start": len(s.ev)}); s.ev.append(("call", i)); p.busy = i; s.calls[n] = 0
        p.send("C " + "\t".join(toks)); s.wait(p)
    def wait(s, p):
        l = p.recv()
        if l is None:
            rc = p.p.poll(); p.kill(); i = p.busy; p.busy = None
            if p.expect: s.lost(p, i)
            else: s.crash = p.p.returncode; s.ev.append(("crash", i))
            return
        if l.startswith('{"y":'): p.state = l[6:-2]; s.calls[p.n] += 1; s.where.append((p.busy, p.state)); return
        s.done(p, l)
    def done(s, p, l):
        i = p.busy; s.ops[i]["res"] = l; s.ops[i]["end"] = len(s.ev); s.ops[i]["syscalls"] = s.calls[p.n]; s.ev.append(("ret", i)); p.busy = None; p.state = "idle"
        c = s.ops[i]["cmd"]
        if c[0] == "open" and '"st":0' in l: p.opened.add(c[1])
        if c[0] == "close": p.opened.discard(c[1])
    def lost(s, p, i):
        s.ev.append(("lost", i)); p.opened = set()
        if i is not None: s.ops[i]["end"] = len(s.ev) - 1
    def step(s, p, m, expect=False):
        """one message to a process stopped within a command"""
        p.expect = expect; p.send(m); s.wait(p)
    def run(s):
        for ln in s.h.lines:
            t = ln.split("\t"); n = int(t[1])
            if s.crash is not None: break
            if t[0] == "P": s.start(n, t[2:]); continue
            p = s.P.get(n)
            if p is None or p.dead: continue
            if t[0] == "K":
                i = p.busy; p.kill(); p.busy = None; s.lost(p, i); continue
            if p.busy is None: continue
            if t[0] == "S": s.step(p, "R %d" % int(t[2]))
            elif t[0] == "T": 
                while p.busy is not None and p.state not in ("write", "hwrite", "blocked"): s.step(p, "R 1")
                if p.busy is not None and p.state in ("write", "hwrite"): s.step(p, "T " + t[2], True)
            elif t[0] == "X":
                while p.busy is not None and p.state not in ("write", "blocked") and not (p.state == "hwrite" and t[3:] == ["h"]): s.step(p, "R 1")
                if p.busy is not None and p.state in ("write", "hwrite"): s.ops[p.busy]["fault"] = t[2]; s.step(p, "X " + t[2])
            elif t[0] == "W": s.finish(p)
        s.drain()
        for p in s.P.values():
            if not p.dead:
                try: p.send("Q")
                except OSError: pass
                p.kill()
    def finish(s, p):
        while p.busy is not None and s.crash is None:
            b = p.state == "blocked"; s.step(p, "R 1000000")
            if p.busy is not None and p.state == "blocked" and b: break
    def drain(s):
        for _ in range(60):
            L = [p for p in s.P.values() if not p.dead and p.busy is not None]
            if not L or s.crash is not None: return
            for p in L: s.finish(p)
            if [p for p in L if p.busy is None]: continue
            # everybody under way waits: for an idle holder?
            I = [p for p in s.P.values() if not p.dead and p.busy is None and p.opened]
            if I: s.start(I[0].n, ["close", sorted(I[0].opened)[0]]); s.finish(I[0])
            else: s.ev.append(("stuck", None)); return
        s.ev.append(("stuck", None))
    def names(s, c):
        k = c[0]
        if k in ("put", "del", "hdel", "undel", "arem", "aremall"): return [c[2]]
        if k in ("ren", "dup", "aadd"): return [c[2], c[3]]
        if k in ("squeeze", "undelall"): return ["*"]
        return []
    def trace(s):
        out = []
        for i, o in enumerate(s.ops):
            o["ov"] = sorted({x.upper() for j, q in enumerate(s.ops) if j != i and q["c"] != o["c"] and q["start"] <= o.get("end", 10**9) and o["start"] <= q.get("end", 10**9) for x in s.names(q["cmd"])})
            o["lv"] = sorted({x.upper() for j, q in enumerate(s.ops) if "res" not in q and q["c"] != o["c"] and q["start"] <= o.get("end", 10**9) and o["start"] <= q.get("end", 10**9) for x in s.names(q["cmd"])})
        at = {}
        for k, i in s.ev:
            o = s.ops[i] if i is not None else {}
            if k == "call":
                at[i] = len(out)
                if "res" in o: out.append('{"e":"call","i":%d,"c":%d,"fault":"%s","ov":%s,"lv":%s,"r":%s}' % (i, o["c"], o.get("fault", ""), json.dumps(o["ov"]), json.dumps(o["lv"]), o["res"]))
                else: out.append('{"e":"begin","i":%d,"c":%d,"x":%s}' % (i, o["c"], json.dumps([str(z)[:300] for z in o["cmd"]])))
            elif k == "ret": out.append('{"e":"ret","i":%d,"back":%d}' % (i, len(out) - at[i]))
            elif k == "lost": out.append('{"e":"lost","c":%d,"names":%s}' % (o.get("c", -1), json.dumps([x.upper() for x in s.names(o["cmd"])] if o else [])))
            elif k == "crash": out.append('{"e":"crash","i":%d}' % (i if i is not None else -1))
            else: out.append('{"e":"stuck"}')
        return out

def one(ex, h, k=0):
    d = hn.scratch("mp")
    try:
        r = Run(ex, h, d, "m%d" % k); r.run()
        return [h, ['{"e":"reset","id":%d}' % k] + r.trace(), r.crash], r
    finally:
        for p in r.P.values(): p.kill()
        import shutil; shutil.rmtree(d, ignore_errors=True)
def runner(src, hs):
    ex = exe()
    with cf.ProcessPoolExecutor(7) as pool: return list(pool.map(_one, [(ex, h, k) for k, h in enumerate(hs)], chunksize=4))
def _one(a): return one(*a)[0]
