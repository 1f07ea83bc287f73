"""Client of the fork server: runs the interpreter once per call."""
import os, shutil, signal, struct, subprocess, tempfile
from . import build as B

def b(s):
    return s if isinstance(s, bytes) else s.encode("latin-1")

class Result:
    __slots__ = ("status", "timed_out", "fresh", "out", "err", "sys", "counts", "allocs")
    def signal(self):
        return os.WTERMSIG(self.status) if os.WIFSIGNALED(self.status) else 0
    def code(self):
        return os.WEXITSTATUS(self.status) if os.WIFEXITED(self.status) else -1
    def hung(self):
        return self.timed_out or self.signal() in (signal.SIGXCPU, signal.SIGKILL)
    def endless(self):
        return self.hung() or self.signal() == signal.SIGXFSZ
    def describe(self):
        s = self.signal()
        if self.timed_out: return "did not end"
        if s == signal.SIGXCPU or s == signal.SIGKILL: return "did not end (used up its CPU time)"
        if s == signal.SIGXFSZ: return "wrote without end"
        if s: return "killed by signal %d" % s
        return "exit status %d" % self.code()

class ServerDied(Exception):
    pass

class Sut:
    """One scratch directory and one server process per build variant."""
    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.wd = tempfile.mkdtemp(prefix="lbv-", dir=base)
        os.chmod(self.wd, 0o777)
        self.servers = {}
        self.runs = 0
        self.fresh = 0

    def close(self):
        for p in self.servers.values():
            try:
                p.stdin.close(); p.wait(5)
            except Exception:
                p.kill()
        self.servers = {}
        shutil.rmtree(self.wd, ignore_errors=True)

    def server(self, variant):
        p = self.servers.get(variant)
        if p is None or p.poll() is not None:
            exe = B.build(variant)
            env = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C",
                   "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190",
                   "UBSAN_OPTIONS": "halt_on_error=1:exitcode=99:print_stacktrace=1"}
            p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=self.wd,
                                 stderr=subprocess.DEVNULL)
            self.servers[variant] = p
        return p

    def clean(self):
        for f in os.listdir(self.wd):
            q = os.path.join(self.wd, f)
            if os.path.isdir(q) and not os.path.islink(q): shutil.rmtree(q, ignore_errors=True)
            else: os.unlink(q)

    def put(self, name, data):
        q = os.path.join(self.wd, name)
        with open(q, "wb") as f: f.write(b(data))
        os.chmod(q, 0o666)

    def get(self, name):
        try:
            with open(os.path.join(self.wd, name), "rb") as f: return f.read().decode("latin-1")
        except FileNotFoundError:
            return None

    def run(self, args, stdin="", variant="plain", cpu=4, wall=60, fsize=1 << 22, faketime=1000000000, breaks=(), failat=0, persist=0, merge=0, sysret=1):
        self.runs += 1
        req = [struct.pack("<9I", cpu, wall, fsize, faketime, failat, persist, merge, sysret & 0xffffffff, len(breaks))]
        for s, g in breaks: req.append(struct.pack("<2I", s, g))
        w = b(self.wd); req.append(struct.pack("<I", len(w))); req.append(w)
        req.append(struct.pack("<I", len(args)))
        for a in args:
            a = b(a); req.append(struct.pack("<I", len(a))); req.append(a)
        i = b(stdin); req.append(struct.pack("<I", len(i))); req.append(i)
        req = b"".join(req)
        for attempt in (0, 1, 2):
            p = self.server(variant)
            try:
                p.stdin.write(struct.pack("<I", len(req)) + req); p.stdin.flush()
                def rd(n):
                    d = p.stdout.read(n)
                    if len(d) != n: raise ServerDied()
                    return d
                r = Result()
                r.status, r.timed_out, r.fresh = struct.unpack("<iII", rd(12))
                self.fresh += r.fresh
                c = struct.unpack("<129I", rd(516))
                r.counts = c[1:min(c[0], 127) + 1]    # function entries in each period in which breaks are trapped
                r.allocs = c[128]
                outs = []
                for _ in range(3):
                    n, = struct.unpack("<I", rd(4)); outs.append(rd(n).decode("latin-1"))
                r.out, r.err, r.sys = outs
                if os.WIFEXITED(r.status) and os.WEXITSTATUS(r.status) in (97, 98) and not r.out:
                    raise RuntimeError("harness: child could not enter its scratch directory")
                return r
            except (ServerDied, BrokenPipeError):
                try: p.kill(); p.wait()
                except Exception: pass
                self.servers.pop(variant, None)
        raise ServerDied()
