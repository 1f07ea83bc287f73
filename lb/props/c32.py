"""Whole games and classic programs, with generated parameters, numbering, names, layout and replies: what they print must be what the algorithm,
computed in Python, and the reference interpreter say. The example programs of the repository are played with generated commands."""
import os, re
from .common import *
from ..games import GAMES
from .. import parse as P
from ..build import REPO

VARIANTS = ["plain"]
CASES = dict(quick=16000, thorough=200000)
RULE = "the program carries out at least 60 statements"

IDENT = re.compile(r'@\w+|"[^"]*"?|[0-9.]+(?:E[+-]?[0-9]+)?|[A-Z][A-Z0-9]*\$?', re.I)

def names_in(lines):
    r = set()
    for t in lines:
        for w in words_of(t):
            if w.rstrip("$") not in RESERVED and w not in RESERVED: r.add(w.rstrip("$"))
    return r

def words_of(t):
    t = re.sub(r"^@\w+ *", "", t)
    if t.startswith(("DATA", "REM")): return []
    return [w.upper() for w in IDENT.findall(t) if w[0].isalpha()]

def rename(t, m):
    lab = ""
    k = re.match(r"@\w+ *", t)
    if k: lab, t = k.group(0), t[k.end():]
    if t.startswith(("DATA", "REM")): return lab + t
    def f(mm):
        w = mm.group(0)
        if not w[0].isalpha(): return w
        d = "$" if w.endswith("$") else ""
        b = w.rstrip("$")
        return m.get(b.upper(), b) + d if w.upper() not in RESERVED and b.upper() not in RESERVED else w
    return lab + IDENT.sub(f, t)

def newname(ch, used):
    for _ in range(60):
        k = ch.upto(3)
        n = ch.pick("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
        if k == 1: n += ch.pick("0123456789")
        elif k > 1: n += "".join(ch.pick("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(ch.int(1, 6 if k == 2 else 20)))
        if n not in used and ok_name(n): used.add(n); return n
    raise Discard("name")

def assemble(ch):
    """(numbered lines, replies, words, names of the games)"""
    src, replies, words, which = [], [], [], []
    k = ch.weighted([(6, 1), (3, 2), (1, 3)])
    used = set()
    for g in range(k):
        f = ch.pick(GAMES)
        l, r, w = f(ch)
        names = sorted(names_in(l))
        m = {n: n for n in names}
        if ch.chance(50): m = {n: newname(ch, used) for n in names}
        elif k > 1:
            for n in names: m[n] = "V%d%s" % (g, n) if ok_name("V%d%s" % (g, n)) else newname(ch, used)
        for t in l:
            t = rename(t, m)
            # labels of one game are its own
            src.append(re.sub(r"@(\w+)", r"@g%d\1" % g, t) if not t.startswith("DATA") else t)
        replies += r; words += w; which.append(f.__name__)
        if g + 1 < k and ch.chance(20): src.append("CLEAR")
    if ch.chance(50): src.append("END")
    if ch.chance(30): src = join_lines(ch, src)
    ns = numbering(ch, len(src))
    at, texts = {}, []
    for n, t in zip(ns, src):
        k = re.match(r"@(\w+) *", t)
        if k: at[k.group(1)] = n; t = t[k.end():]
        texts.append((n, t))
    texts = [(n, t if t.startswith("DATA") else re.sub(r"@(\w+)", lambda k: str(at[k.group(1)]), t)) for n, t in texts]
    return texts, replies, words, which

def join_lines(ch, src):
    """some lines put together with colons, where that means the same"""
    out = []
    for t in src:
        if out and not t.startswith("@") and not re.search(r"\b(IF|REM|DATA|GOTO|RETURN|END)\b", out[-1]) and not t.startswith(("DATA", "REM")) and len(out[-1]) + len(t) < 110 and ch.chance(50): out[-1] += ":" + t
        else: out.append(t)
    return out

def example(ch):
    """one of the example programs: (numbered lines, replies)"""
    name = ch.weighted([(12, "advent1.bas"), (1, "sieve.bas")])
    path = os.path.join(REPO, "EXAMPLES", name)
    if not os.path.exists(path): raise Discard("no example")
    texts = []
    for l in open(path, encoding="latin-1"):
        m = re.match(r"\s*(\d+) ?(.*)$", l.rstrip("\r\n"))
        if m: texts.append((int(m.group(1)), m.group(2)))
    reps = []
    if name == "advent1.bas":
        verbs, nouns = "go move get drop open close unlock lock north south east west n e s w look help Open".split(), "room desk drawer door key drawer key door dra ke east north wall x".split()
        win = ["open drawer", "get key", "unlock door", "go east"]
        todo = list(win)
        for _ in range(ch.size(1, 16)):
            if todo and ch.chance(40): c = todo.pop(0)
            else:
                c = ch.pick(verbs)
                if ch.chance(75): c += " " * ch.int(1, 2) + ch.pick(nouns)
                if ch.chance(6): c += " now"
                if ch.chance(6): c = " " + c + " "
                if ch.chance(3): c = ""
            reps.append(c)
        reps += todo + win
    return texts, reps, name

def gen(ch):
    ex = None
    if ch.chance(20):
        texts, replies, ex = example(ch)
        words = None; which = [ex]
        if ex == "sieve.bas":
            texts = [(n, t.replace("1000", str(ch.int(3, 250)))) for n, t in texts]
    else: texts, replies, words, which = assemble(ch)
    lines, bad = P.parse_program(texts)
    if bad is not None: raise AssertionError("model: line %r" % (texts[bad],))
    if ex and ch.chance(50):
        ns = numbering(ch, len(lines)); m = dict(zip([n for n, _ in lines], ns))
        lines = [(m[n], [relabel(s, lambda r: m.get(r, r)) for s in ss]) for n, ss in lines]
        texts = None
    style = ch.weighted([(3, "as is"), (2, "rendered"), (3, "free"), (2, "crunched")])
    if style == "as is" and texts: tl = texts
    elif style == "free": tl = program_text(lines, ch)
    elif style == "crunched":
        tl = []
        for n, ss in lines:
            t = crunched(ss, ch)
            tl.append((n, text_of(ss) if t is None else t))
    else: tl = program_text(lines)
    crunch = style == "crunched"
    if crunch:
        lines2, bad = P.parse_program(tl, None, True)
        if bad is not None: crunch = False; tl = program_text(lines)
    steps = 30000
    q = list(replies)
    stdin = []
    def reply(): return q.pop(0) if q else None
    way = ch.weighted([(6, "file"), (2, "load"), (2, "typed")])
    if way != "file" and any(len("%d %s" % l) > 120 for l in tl): way = "file"
    if way == "file":
        def reader():
            s = reply()
            if s is None: return None
            stdin.append(s + "\n"); return s + "\n"
        vm = Vm(reader=reader, max_steps=steps); vm.load(tl, lines); vm.run_program()
        run = file_run(tl, vm, "".join(stdin), ["-q", "-k"] if crunch else ["-q"])
        out = "".join(vm.out)
    else:
        s = Session(replies=lambda: reply() or "", crunch=crunch, max_steps=steps); vm = s.vm
        files = {}
        if way == "load": files["game.bas"] = file_text(tl); s.load("game.bas", tl)
        else:
            for l in (ch.shuffle(tl) if ch.chance(30) else tl): s.line(*l)
        o0 = len(s.vm.out)
        s.run()
        out = "".join(s.vm.out[o0:])[2:]
        run = s.finish(["-q", "-k"] if crunch else ["-q"], files=files)
    if vm.errors or words is not None and not agrees(out.split(), words): raise AssertionError("model: %r prints %r for %r, errors %r\n%s" % (which, out.split(), words, vm.errors, "\n".join("%d %s" % l for l in tl)))
    return dict(runs=[run], which=which, way=way, style=style, steps=vm.steps)

def agrees(a, b): return len(a) == len(b) and all(y is None or x == y for x, y in zip(a, b))

def nontrivial(c): return c["steps"] >= 60
def classes(c): return c["which"] + [c["way"], c["style"]]
