"""Property-based testing engine: cases are functions of a sequence of integer choices, so that they can be
replayed and shrunk whatever the generator. See DESIGN.md."""
import bisect, hashlib, importlib, json, multiprocessing, os, queue, random, sys, time, traceback
from . import build as B
from . import dict as dict_
from .sut import Sut

sys.setrecursionlimit(20000)

VERIF = B.VERIF

class Discard(Exception):
    """The generated case is outside the property's domain."""

class Fail(Exception):
    pass

class Choices:
    """Source of choices: a prefix to replay, then random (or zeros when rng is None)."""
    LIMIT = 9000
    def __init__(self, prefix=(), rng=None):
        self.prefix = prefix; self.rng = rng; self.log = []
    def upto(self, n):
        """integer in 0..n; shrinks towards 0"""
        if n <= 0: return 0
        i = len(self.log)
        if i >= self.LIMIT: raise Discard("too many choices")
        if i < len(self.prefix): v = min(self.prefix[i], n)
        elif self.rng: v = self.rng.randint(0, n)
        else: v = 0
        self.log.append(v)
        return v
    def int(self, lo, hi):
        if hi - lo >= 8 and self.chance(12): return self.magic(lo, hi)
        return lo + self.upto(hi - lo)
    def magic(self, lo, hi):
        """a value within lo..hi that is, or is next to, a constant of the code under test (see dict.py), if there is one"""
        a = bisect.bisect_left(dict_.NEAR, lo); b = bisect.bisect_right(dict_.NEAR, hi)
        return dict_.NEAR[a + self.upto(b - a - 1)] if a < b else lo + self.upto(hi - lo)
    def pick(self, seq):
        return seq[self.upto(len(seq) - 1)]
    def chance(self, num, den=100):
        """true with probability num/den; shrinks towards false"""
        return self.upto(den - 1) >= den - num
    def weighted(self, pairs):
        """pairs: (weight, value), first is the simplest"""
        total = sum(w for w, _ in pairs)
        k = self.upto(total - 1)
        for w, v in pairs:
            if k < w: return v
            k -= w
    def size(self, lo, hi):
        """like int but favouring small sizes, with occasional large ones"""
        r = self.upto(3)
        if r == 0: return self.int(lo, min(hi, lo + 2))
        if r == 1: return self.int(lo, min(hi, lo + max(1, (hi - lo) // 3)))
        return self.int(lo, hi)
    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.upto(i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).digest()[:10]

def load(pid):
    return importlib.import_module("lb.props." + pid.lower())

def rng_for(seed, pid, i):
    return random.Random("%s/%s/%d" % (seed, pid, i))

GENERATOR_FAULTS = []

def attempt(mod, sut, choices):
    """Generate and judge: returns (case or None, failure or None)."""
    try:
        case = mod.gen(choices)
    except Discard:
        return None, None
    except Exception: # a fault of the generator: no case; more than a few make the check fail
        GENERATOR_FAULTS.append(traceback.format_exc()[-2500:])
        return None, None
    try:
        why = mod.judge(case, sut)
    except Discard:
        return None, None
    return case, why

def worker(pid, seed, tier, w, nworkers, total, deadline, q):
    try:
        mod = load(pid)
        sut = Sut()
        st = dict(evaluations=0, discarded=0, nontrivial=set(), runs=0, samples=[], classes={}, fail=None, error=None)
        i = w
        guided = getattr(mod, "GUIDED", False)
        corpus = []
        try:
            while i < total:
                if time.time() > deadline.value: break
                rng = rng_for(seed, pid, i)
                prefix = ()
                if guided and corpus and rng.random() < 0.6: prefix = mutate(rng, corpus)
                ch = Choices(prefix=prefix, rng=rng)
                sut.fresh = 0
                try:
                    case, why = attempt(mod, sut, ch)
                except Exception:
                    st["error"] = "case %d: %s" % (i, traceback.format_exc()[-2500:])
                    break
                if case is None:
                    st["discarded"] += 1
                else:
                    st["evaluations"] += 1
                    if guided and sut.fresh >= 4:
                        corpus.append(list(ch.log)); st["corpus"] = len(corpus)
                        if len(corpus) > 4000: del corpus[rng.randrange(2000)]
                    if mod.nontrivial(case): st["nontrivial"].add(case_key(case))
                    for c in mod.classes(case): st["classes"][c] = st["classes"].get(c, 0) + 1
                    if len(st["samples"]) < 2 and mod.nontrivial(case): st["samples"].append(case)
                    if why:
                        st["fail"] = (i, ch.log, why)
                        deadline.value = 0 # stop the others
                        break
                if len(GENERATOR_FAULTS) > 20 or len(GENERATOR_FAULTS) > 3 and not st["evaluations"]:
                    st["error"] = "generator: " + GENERATOR_FAULTS[-1]
                    break
                i += nworkers
        finally:
            st["runs"] = sut.runs
            st["generator_faults"] = len(GENERATOR_FAULTS)
            sut.close()
        q.put(st)
    except BaseException:
        q.put(dict(error=traceback.format_exc()))

def mutate(rng, corpus):
    """A choice sequence derived from ones that reached new code (coverage-guided search)."""
    a = list(rng.choice(corpus[-200:] if rng.random() < 0.5 else corpus))
    k = rng.random()
    if k < 0.2: # splice
        b = rng.choice(corpus)
        a = a[:rng.randrange(len(a) + 1)] + b[rng.randrange(len(b) + 1):]
    elif k < 0.45: # keep a beginning, continue at random
        a = a[:rng.randrange(len(a) + 1)]
    else:
        for _ in range(rng.choice((1, 1, 2, 4, 8))):
            if not a: break
            i = rng.randrange(len(a))
            m = rng.random()
            if m < 0.5: a[i] = rng.choice((0, 1, a[i] + 1, max(0, a[i] - 1), rng.randrange(200)))
            elif m < 0.7: del a[i:i + rng.randrange(1, 6)]
            elif m < 0.9: a[i:i] = [rng.randrange(100) for _ in range(rng.randrange(1, 5))]
            else:
                j = rng.randrange(len(a)); n = rng.randrange(1, 12)
                a[i:i] = a[j:j + n]
    return a[:5000]

def shrink(mod, sut, log, budget_s=40, budget_n=2500):
    """Smallest choice sequence found that still fails."""
    best = list(log)
    end = time.time() + budget_s
    count = [0]
    def fails(cand):
        if time.time() > end or count[0] > budget_n: return None
        count[0] += 1
        ch = Choices(prefix=cand)
        try: case, why = attempt(mod, sut, ch)
        except Exception: return None
        if case is not None and why:
            return ch.log
        return None
    def simpler(a, c): return (len(a), a) < (len(c), c)
    improved = True
    while improved and time.time() < end and count[0] <= budget_n:
        improved = False
        for k in (64, 32, 16, 8, 4, 2, 1):
            i = len(best) - k
            while i >= 0:
                cand = best[:i] + best[i + k:]
                r = fails(cand)
                if r is not None and simpler(r, best):
                    best = r; improved = True
                    i = min(i, len(best) - k)
                else: i -= max(1, k // 2) if k > 1 else 1
                if time.time() > end or count[0] > budget_n: break
        for i in range(len(best)):
            if i >= len(best): break
            if best[i] == 0: continue
            for v in (0, best[i] // 2, best[i] - 1):
                if i >= len(best) or v >= best[i]: continue
                r = fails(best[:i] + [v] + best[i + 1:])
                if r is not None and simpler(r, best):
                    best = r; improved = True
                    break
    return best, count[0]

def save_replay(pid, rec):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    name = "%s-%s.json" % (pid, hashlib.sha1(json.dumps(rec["case"], sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f: json.dump(rec, f, indent=1)
    return "replays/" + name

def write_evidence(pid, ev):
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(d, pid + ".json"))

def known_findings(pid):
    """Lines 'finding: property=<id> match=<text> :: description' of KNOWN_FINDINGS; suppress exactly the failure described."""
    r = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % pid):
                r.append(line.strip())
    return r

def check(pid, tier=None, seed=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    mod = load(pid)
    violations = []
    try:
        for v in mod.VARIANTS: B.build(v)
    except B.BuildError as e:
        print("the interpreter does not build:\n%s" % e)
        return 2
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", assumptions=list(getattr(mod, "ASSUMPTIONS", [])))
    # fixed scenarios first (regressions of repaired defects, demonstrations of known findings)
    fixed = 0
    known = known_findings(pid)
    known_seen = []
    for name, case in getattr(mod, "fixed_cases", lambda: [])():
        sut = Sut()
        try: why = mod.judge(case, sut)
        finally: sut.close()
        fixed += 1
        if why:
            k = [l for l in known if (" match=%s " % name) in l]
            if k:
                known_seen.append(name)
                print("KNOWN-FINDING: property=%s %s" % (pid, k[0].split("::", 1)[-1].strip()))
            else:
                path = save_replay(pid, dict(property=pid, name=name, case=case, why=why))
                violations.append((path, why))
    total = mod.CASES[tier] * 3 // 2 if tier == "quick" else mod.CASES[tier]
    scale = os.environ.get("VERIF_SCALE")
    if scale: total = int(total * float(scale))
    cap = 500 if tier == "quick" else 3300
    nworkers = min(int(os.environ.get("LB_WORKERS", "8")), max(1, total))
    ctx = multiprocessing.get_context("fork")
    deadline = ctx.Value("d", t0 + cap)
    q = ctx.Queue()
    stats = []
    if not violations:
        ps = [ctx.Process(target=worker, args=(pid, seed, tier, w, nworkers, total, deadline, q)) for w in range(nworkers)]
        for p in ps: p.start()
        while len(stats) < len(ps):
            try: stats.append(q.get(timeout=5))
            except queue.Empty:
                if not any(p.is_alive() for p in ps):
                    stats.append(dict(error="a worker process ended without a result"))
                    break
        for p in ps: p.join()
    errors = [s["error"] for s in stats if s.get("error")]
    good = [s for s in stats if "evaluations" in s]
    fails = sorted((s["fail"] for s in good if s["fail"]), key=lambda f: f[0])
    unreproduced = 0
    shrinks = 0
    for i, log, why in fails:
        sut = Sut()
        try:
            again = 0
            for _ in range(3):
                case, w2 = attempt(mod, sut, Choices(prefix=log))
                if w2: again += 1
            if again < 2:
                unreproduced += 1
                continue
            best, shrinks = (log, 0) if os.environ.get("LB_NOSHRINK") else shrink(mod, sut, log)
            case, w3 = attempt(mod, sut, Choices(prefix=best))
            if not w3:
                case, w3 = attempt(mod, sut, Choices(prefix=log))
                best = log
            path = save_replay(pid, dict(property=pid, seed=seed, index=i, choices=best, case=case, why=w3 or why))
            violations.append((path, w3 or why))
        finally:
            sut.close()
        break
    nontrivial = set()
    classes = {}
    for s in good:
        nontrivial |= s["nontrivial"]
        for c, n in s["classes"].items(): classes[c] = classes.get(c, 0) + n
    samples = [c for s in good for c in s["samples"]][:6]
    ev["coverage"] = dict(
        evaluations=sum(s["evaluations"] for s in good) + fixed,
        distinct_nontrivial=len(nontrivial),
        rule=mod.RULE,
        samples=[clip(c) for c in samples] or [clip(dict(fixed=fixed))],
        interpreter_runs=sum(s["runs"] for s in good),
        discarded=sum(s["discarded"] for s in good),
        generator_faults=sum(s.get("generator_faults", 0) for s in good),
        **({"corpus": sum(s.get("corpus", 0) for s in good)} if getattr(mod, "GUIDED", False) else {}),
        fixed_scenarios=fixed,
        classes=dict(sorted(classes.items())),
        planned=total, shrink_attempts=shrinks, unreproduced=unreproduced)
    if known_seen: ev["coverage"]["known_findings"] = known_seen
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - t0, 2)
    write_evidence(pid, ev)
    print("%s %s: %d cases (%d distinct non-trivial, %d discarded), %d runs, %.1fs" % (
        pid, tier, ev["coverage"]["evaluations"], len(nontrivial), ev["coverage"]["discarded"],
        ev["coverage"]["interpreter_runs"], ev["wall_s"]))
    for path, why in violations:
        print(why)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if violations: return 1
    if errors:
        print("harness error:\n" + errors[0])
        return 2
    return 0

def clip(x, n=1500):
    if isinstance(x, str): return x if len(x) <= n else x[:n] + "...(%d characters)" % len(x)
    if isinstance(x, dict): return {k: clip(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [clip(v, n) for v in x[:40]]
    return x

def replay(pid, path):
    mod = load(pid)
    with open(path) as f: rec = json.load(f)
    sut = Sut()
    try: why = mod.judge(rec["case"], sut)
    finally: sut.close()
    if why:
        print(why)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s: the recorded case holds" % pid)
    return 0

def main(argv):
    pid = argv[0].upper()
    if len(argv) > 2 and argv[1] == "--replay": return replay(pid, argv[2])
    return check(pid)
