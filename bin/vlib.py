"""Shared by the check scripts: scratch directories and builds from /repo's current working tree."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

class Broken(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def scratch():
    base = os.environ.get("VERIF_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else None)
    return tempfile.mkdtemp(prefix="verif-", dir=base)

def version():
    with open(os.path.join(REPO, "byacc", "VERSION")) as f:
        return f.read().strip()

BYFLAGS = ["-DHAVE_CONFIG_H", "-D_DEFAULT_SOURCE", "-D_XOPEN_SOURCE=500", "-w"]

def byacc_sources(flavor):
    src = [s for s in sorted(glob.glob(os.path.join(REPO, "byacc", "*.c"))) if os.path.basename(s) not in ("btyaccpar.c", "yaccpar.c")]
    src.append(os.path.join(REPO, "byacc", "btyaccpar.c" if flavor == 0 else "yaccpar.c"))
    return src

def config_dir(flavor, work):
    """Directory holding config.h for this flavor; the plain one is the tracked file with YYBTYACC switched off."""
    d = os.path.join(work, "cfg%d" % flavor)
    os.makedirs(d, exist_ok=True)
    text = open(os.path.join(REPO, "byacc", "config.h")).read()
    if flavor:
        text = "\n".join(l for l in text.split("\n") if "YYBTYACC" not in l)
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write(text + "\n")
    return d

def prep_byacc(flavor, work):
    """Copies the byacc sources next to the flavor's config.h (quoted includes look in the source's directory first)."""
    d = config_dir(flavor, work)
    for s in byacc_sources(flavor) + glob.glob(os.path.join(REPO, "byacc", "*.h")):
        b = os.path.basename(s)
        if b != "config.h":
            shutil.copyfile(s, os.path.join(d, b))
    return d

def cc_many(jobs):
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: run(c), jobs))

def build_tools(work, want=("bt", "plain", "lemon"), cflags=("-O1", "-g0"), objs_only=False):
    """Compiles the tools; returns name -> executable (or list of objects)."""
    jobs, objs = [], {}
    for name in want:
        if name == "lemon":
            o = os.path.join(work, "lemon.o")
            jobs.append(["gcc", "-w", *cflags, "-c", os.path.join(REPO, "lemon", "lemon.c"), "-o", o])
            objs[name] = [o]
            continue
        fl = 0 if name == "bt" else 1
        d = prep_byacc(fl, work)
        objs[name] = []
        for s in byacc_sources(fl):
            b = os.path.basename(s)
            o = os.path.join(d, b[:-2] + ".o")
            jobs.append(["gcc", *BYFLAGS, "-DYYPATCH=" + version(), *cflags, "-I" + d, "-c", os.path.join(d, b), "-o", o])
            objs[name].append(o)
    cc_many(jobs)
    if objs_only:
        return objs
    out = {}
    for name, o in objs.items():
        out[name] = os.path.join(work, "tool-" + name)
        run(["gcc", "-o", out[name], *o])
    return out

def build_cxx(srcdir, work, name, libs=(), opt="-O1", std="-std=c++17"):
    jobs, objs = [], []
    for s in sorted(glob.glob(os.path.join(srcdir, "*.cpp"))):
        o = os.path.join(work, name + "-" + os.path.basename(s)[:-4] + ".o")
        objs.append(o)
        jobs.append(["g++", opt, "-g1", "-w", std, "-c", s, "-o", o])
    cc_many(jobs)
    exe = os.path.join(work, name)
    run(["g++", "-rdynamic", "-o", exe, *objs, "-ldl", *libs])
    return exe
