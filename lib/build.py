"""Builds heclib + hecdss from /repo's current working tree into /verif/.build (content addressed),
then the drivers of /verif/drv against it.  Nothing is written in /repo."""
import hashlib, os, re, subprocess, sys, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
HC = os.path.join(REPO, "heclib/heclib_c")
CFLAGS = ["-O1", "-g", "-std=gnu99", "-fPIC", "-w", "-D_GNU_SOURCE"]

class BuildError(Exception): pass

def _sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()

def _read(p):
    with open(p, "rb") as f: return f.read()

def sources():
    txt = open(os.path.join(HC, "CMakeLists.txt")).read()
    srcs = sorted(set(re.findall(r"src/[\w./+-]+\.c\b", txt)))
    out = [os.path.join(HC, s) for s in srcs if os.path.exists(os.path.join(HC, s))]
    ht = open(os.path.join(REPO, "heclib/hecdss/CMakeLists.txt")).read()
    for s in sorted(set(re.findall(r"\b[\w./+-]+\.c\b", ht))):
        p = os.path.join(REPO, "heclib/hecdss", s)
        if os.path.exists(p): out.append(p)
    return out

def _headers_hash():
    hs = []
    for root in (os.path.join(HC, "src"), os.path.join(REPO, "heclib/hecdss")):
        for d, _, fs in os.walk(root):
            hs += [os.path.join(d, f) for f in fs if f.endswith((".h", ".inc"))]
    return _sha(*[_read(h) for h in sorted(hs)])

INCS = ["-I" + os.path.join(HC, "src/headers"), "-I" + os.path.join(REPO, "heclib/hecdss")]

def _compile(src, hh, flags, odir):
    key = _sha(_read(src), hh, " ".join(flags), os.path.basename(src))
    obj = os.path.join(odir, os.path.basename(src)[:-2] + "." + key[:16] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc", *flags, *INCS, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise BuildError("%s:\n%s" % (src, r.stdout.decode(errors="replace")[-2000:]))
        os.replace(tmp, obj)
    return obj

def library(extra=(), tag="std"):
    odir = os.path.join(BUILD, "obj-" + tag); os.makedirs(odir, exist_ok=True)
    hh = _headers_hash(); flags = CFLAGS + list(extra)
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: _compile(s, hh, flags, odir), sources()))
    return objs, hh, flags

WRAPPED = {"drvmp": "open close read write fsync ftruncate usleep lockf".split()}
def driver(name, extra=(), ldflags=(), tag="std"):
    """name: drv/<name>.c -> executable path"""
    ldflags = list(ldflags) + ["-Wl," + ",".join("--wrap=" + f for f in WRAPPED.get(name, ()))] * (name in WRAPPED)
    objs, hh, flags = library(extra, tag)
    odir = os.path.join(BUILD, "obj-" + tag)
    src = os.path.join(VERIF, "drv", name + ".c")
    dh = _sha(hh, *[_read(os.path.join(VERIF, "drv", f)) for f in sorted(os.listdir(os.path.join(VERIF, "drv"))) if f.endswith(".h")])
    dobj = _compile(src, dh, flags, odir)
    key = _sha(dobj, " ".join(objs), " ".join(ldflags))
    exe = os.path.join(BUILD, "%s-%s-%s" % (name, tag, key[:16]))
    if not os.path.exists(exe):
        for f in os.listdir(BUILD):
            if f.startswith("%s-%s-" % (name, tag)):
                try: os.remove(os.path.join(BUILD, f))
                except OSError: pass
        lst = os.path.join(BUILD, "link-%s-%d.txt" % (name, os.getpid()))
        open(lst, "w").write("\n".join([dobj] + objs))
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["gcc", "-g", "-o", tmp, "@" + lst, *ldflags, "-Wl,--allow-multiple-definition", "-lz", "-lm", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.remove(lst)
        if r.returncode: raise BuildError("link %s:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
        os.replace(tmp, exe)
    return exe

if __name__ == "__main__":
    for n in sys.argv[1:]: print(driver(n))
