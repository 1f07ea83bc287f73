"""Build the interpreter in /repo's working tree into fork-server executables under /verif/build."""
import glob, hashlib, os, subprocess, sys, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LB_REPO", "/repo")
DIRS = ["Shared", "Basic", "Monitor", "System"]

COMMON = ["-std=gnu11", "-g", "-w", "-DDEBUG", "-Dmain=lb_main"]
VARIANTS = {
    "plain": ["-O1"],
    "brk": ["-O1", "-finstrument-functions"],
    "san": ["-O1", "-fsanitize=address,undefined", "-fstrict-flex-arrays=1", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
            "-fsanitize-coverage=trace-pc", "-finstrument-functions", "-fno-pie"],
}
LINK = {"plain": [], "brk": [], "san": ["-fsanitize=address,undefined", "-no-pie"]}

class BuildError(Exception):
    pass

def sources():
    r = []
    for d in DIRS:
        r += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    return [s for s in r if os.path.basename(s) != "CuTest.c"]

def tree_hash():
    h = hashlib.sha256()
    files = []
    for d in DIRS:
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, f) for f in fs if f.endswith((".c", ".h", ".def", ".inc"))]
    for f in sorted(files):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fp: h.update(fp.read())
        h.update(b"\0")
    for f in (os.path.join(VERIF, "harness", "server.c"), os.path.abspath(__file__)):
        with open(f, "rb") as fp: h.update(fp.read())
    return h.hexdigest()[:20]

def build(variant):
    """Return the path of the server executable for the current tree."""
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    key = "%s-%s" % (variant, tree_hash())
    exe = os.path.join(base, key, "server")
    if os.path.exists(exe):
        return exe
    with open(os.path.join(base, "lock-" + variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = os.path.join(base, "tmp-%s-%d" % (key, os.getpid()))
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        inc = ["-I" + os.path.join(REPO, d) for d in DIRS]
        def cc(src):
            obj = os.path.join(tmp, src.replace("/", "_") + ".o")
            p = subprocess.run(["gcc"] + COMMON + VARIANTS[variant] + inc + ["-c", src, "-o", obj],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: raise BuildError(p.stdout)
            return obj
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, sources()))
        srv = os.path.join(tmp, "srv.o")
        p = subprocess.run(["gcc", "-O1", "-g", "-w", "-c", os.path.join(VERIF, "harness", "server.c"), "-o", srv],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise BuildError(p.stdout)
        out = os.path.join(tmp, "server")
        p = subprocess.run(["gcc"] + LINK[variant] + ["-o", out, srv] + objs +
                           ["-lm", "-Wl,--wrap=system", "-Wl,--wrap=time", "-Wl,--wrap=signal", "-Wl,--wrap=sigaction",
                            "-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=strdup"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise BuildError(p.stdout)
        for o in glob.glob(os.path.join(tmp, "*.o")): os.unlink(o)
        final = os.path.dirname(exe)
        shutil.rmtree(final, ignore_errors=True)
        os.rename(tmp, final)
        # keep only the few most recent builds of this variant
        olds = sorted((d for d in glob.glob(os.path.join(base, variant + "-*")) if d != final), key=os.path.getmtime)
        for d in olds[:-3]: shutil.rmtree(d, ignore_errors=True)
    return exe

if __name__ == "__main__":
    for v in (sys.argv[1:] or VARIANTS):
        t = time.time()
        print(v, build(v), "%.1fs" % (time.time() - t))
