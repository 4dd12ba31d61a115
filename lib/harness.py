"""Runs histories (driver scripts) on the real code, and the recorded traces through TLC."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
VERIF = build.VERIF
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")

def scratch(prefix="w"):
    base = os.environ.get("VERIF_TMP", "/tmp")
    return tempfile.mkdtemp(prefix="hecv-%s-" % prefix, dir=base)

def line(*a): return "\t".join(str(x) for x in a)

class History:
    """name, lines (script without the leading reset), meta"""
    def __init__(self, name, lines): self.name = name; self.lines = [l if isinstance(l, str) else line(*l) for l in lines]

def _run_chunk(exe, hs, env=None, timeout=240):
    """-> list of (history, [json lines], crash or None)"""
    res = []; i = 0; ncrash = 0
    while i < len(hs):
        d = scratch("drv")
        try:
            sp = os.path.join(d, "script"); op = os.path.join(d, "out"); wd = os.path.join(d, "w"); os.mkdir(wd)
            with open(sp, "w") as f:
                for k in range(i, len(hs)):
                    f.write("reset\t%d\n" % k)
                    for l in hs[k].lines: f.write(l.replace("@F", "h%d_%s" % (k, os.path.basename(d)[-6:])) + "\n")
            ev = dict(os.environ); ev.update(env or {}); ev["TZ"] = "UTC"; ev["TMPDIR"] = d; ev["MALLOC_PERTURB_"] = "165"  # memory the library forgets to set must not look like zeros by luck
            crash = None
            try:
                r = subprocess.run([exe, sp, op, wd], cwd=wd, env=ev, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
                if r.returncode in (97, 98): raise RuntimeError("driver: " + r.stderr.decode()[-300:])
                if r.returncode != 0: crash = r.returncode
            except subprocess.TimeoutExpired: crash = -999
            cur = None; got = []
            if os.path.exists(op):
                with open(op, errors="replace") as f:
                    for ln in f:
                        ln = ln.rstrip("\n")
                        if ln.startswith('{"e":"reset"'):
                            k = int(ln.split('"id":')[1].rstrip("}")); cur = []; got.append((k, cur)); cur.append(ln); continue
                        if cur is not None: cur.append(ln)
            for k, evs in got:
                res.append([hs[k], evs, None])
            last = got[-1][0] if got else i - 1
            if crash is not None:
                if not got: res.append([hs[i], ['{"e":"reset","id":%d}' % i], crash]); last = i
                else: res[-1][2] = crash
                ev0 = res[-1][1]
                if ev0 and not ev0[-1].endswith("}"): ev0.pop()
                ev0.append('{"e":"crash","sig":%d}' % crash)
            i = last + 1 if (crash is not None) else len(hs)
            if crash is not None: ncrash += 1
            if ncrash >= 3: break   # enough to report; do not wait for more hangs
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return res

def run_histories(exe, hs, env=None, jobs=8, timeout=240):
    n = max(1, min(jobs, len(hs)))
    chunks = [hs[i::n] for i in range(n)]
    with cf.ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda c: _run_chunk(exe, c, env, timeout), chunks))
    return [r for o in outs for r in o]

def tlc(module, cfg=None, env=None, workers=1, timeout=800, args=(), heap="2g"):
    """-> (rc, output)"""
    md = scratch("tlc")
    try:
        ev = dict(os.environ); ev.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC",
               "-config", cfg or module + ".cfg", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", *args, module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=ev, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            return -1, (x.stdout or b"").decode(errors="replace") + "\nTIMEOUT"
    finally:
        shutil.rmtree(md, ignore_errors=True)

class SpecError(Exception): pass
class Untraced(Exception): pass

def check_traces(module, results, cfg=None, timeout=700, maxbad=3, env=None):
    """Feeds the traces (list of [history, lines, crash]) to the trace specification, as one behaviour.
    -> (list of rejected (result, index of the rejected event, text)), stats"""
    rem = list(results); bad = []; states = 0; lines_ok = 0
    while rem:
        d = scratch("tr")
        try:
            tp = os.path.join(d, "t.ndjson"); offs = []; n = 0
            with open(tp, "w") as f:
                for r in rem:
                    offs.append(n)
                    for ln in r[1]: f.write(ln + "\n"); n += 1
            e2 = {"TRACE": tp}; e2.update(env or {})
            rc, out = tlc(module, cfg, e2, timeout=timeout)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
        g = re.findall(r"([\d,]+) states generated", out)
        if g: states += int(g[-1].replace(",", ""))
        if rc == 0 and m and int(m.group(1)) == n:
            lines_ok += n; break
        reached = None; why = ""
        if m: reached = int(m.group(1))
        if "Invariant" in out and "is violated" in out:
            why = "invariant violated"; k = re.findall(r"^/\\ l = (\d+)", out, re.M) or re.findall(r"\bl = (\d+)", out)
            reached = int(k[-1]) - 2 if k else reached
        elif m is None or (rc != 0 and "Evaluating" in out and reached is None):
            k = re.findall(r"^/\\ l = (\d+)", out, re.M)
            if k: reached = int(k[-1]) - 1; why = "specification could not evaluate the event"
        if reached is None: i = out.find("Error:"); raise SpecError(out[max(0, i):i + 900] + " ... " + out[-1200:])
        # event index `reached` (0-based) is the first one not accepted
        hi = max(i for i in range(len(rem)) if offs[i] <= reached)
        bad.append((rem[hi], reached - offs[hi], why + ("" if not why else "\n" + out[-1500:])))
        lines_ok += offs[hi]
        rem = rem[hi + 1:]
        if len(bad) >= maxbad: break
    return bad, {"states": states, "lines": lines_ok}

def _checked(module, c, cfg, timeout, env):
    try: return check_traces(module, c, cfg, timeout, env=env)
    except SpecError:
        # one of the traces cannot even be interpreted: find it
        bad = []; st = {"states": 0, "lines": 0}
        for r in c:
            try: b, s = check_traces(module, [r], cfg, timeout, env=env); bad += b; st["states"] += s["states"]; st["lines"] += s["lines"]
            except SpecError as x: bad.append((r, len(r[1]) - 1, "specification cannot interpret the trace\n" + str(x)[-1200:]))
            if len(bad) >= 3: break
        if not bad: raise
        return bad, st

def check_parallel(module, results, cfg=None, jobs=6, timeout=700, env=None):
    jobs = max(1, min(jobs, len(results)))
    tot = sum(len(r[1]) for r in results)
    chunks = [[] for _ in range(jobs)]; load = [0] * jobs
    for r in results:
        i = load.index(min(load)); chunks[i].append(r); load[i] += len(r[1])
    with cf.ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(lambda c: _checked(module, c, cfg, timeout, env), [c for c in chunks if c]))
    bad = [b for o in outs for b in o[0]]
    return bad, {"states": sum(o[1]["states"] for o in outs), "lines": sum(o[1]["lines"] for o in outs), "events": tot}
