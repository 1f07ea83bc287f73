"""Programs and sessions under combinations of the diagnostic options: with the diagnostics taken away, everything must be as without
them; the trace of lines is predicted by the reference interpreter; memory blocks must balance after a normal end."""
import re
from .common import *
from ..judge import compare, diff, events, OVERFLOW

VARIANTS = ["plain"]
CASES = dict(quick=22000, thorough=200000)
RULE = "at least one diagnostic option given, and the program executed at least 5 lines"
FORLOG = re.compile(r"\[(?:FOR|NEXT-VARIABLE|NEXT-IMPLICIT)\]\n-- line: [^\n]*\n-- initial stack: [^\n]*\n|-- final stack: [^\n]*\n")
MEM = re.compile(r"\nmalloc: +(\d+)\nfree: +(\d+)\n\Z")
BANNER = re.compile(r"\ALegacy Basic [^\n]*\n\n")
LONG = {"-t": "--trace-basic", "-f": "--trace-for", "-g": "--trace-log", "-m": "--report-memory", "-q": "--quiet", "-r": "--run"}

def special(ch):
    """Lines before the first that use up much: large arrays of strings and long strings, deep expressions."""
    r = []
    k = ch.upto(4)
    if k == 4: # numbers that six digits do not show, with others waiting
        e = ch.pick([op("-", op("*", num("0.1"), num(3)), num("0.3")), num("16777217"), num("0.1"), op("/", num(1), num(3))])
        x = e
        ns = [ch.pick(["1", "0", "2.5", "0.1"]) for _ in range(ch.int(2, 14))]
        for n in ns: x = op("+", num(n), ("par", x))
        y = e
        for n in ns: y = op("+", num(n), y) if ch.chance(50) else op("+", y, num(n))
        r.append([("let", var("FZX"), x, False), ("let", var("FZY"), y, False)])
        r.append([("print", [("e", op("-", var("FZX"), num(sum(float(n) for n in ns) and "%g" % sum(float(n) for n in ns)))), (";",), ("e", op("=", var("FZX"), x)), (";",), ("e", op("-", var("FZX"), var("FZY")))], False)])
    elif k <= 1:
        d = ch.pick([[ch.int(50, 9000)], [ch.int(1, 90), ch.int(1, 90)], [ch.int(0, 3), ch.int(200, 9000)], [ch.int(200, 9000), ch.int(0, 3)]])
        r.append([("dim", [("FZB$", [num(x) for x in d])])])
        es = [[ch.pick([0, x, ch.int(0, x)]) for x in d] for _ in range(ch.int(2, 6))] + [d]
        r.append([("let", idx("FZB$", *[num(x) for x in e]), op("+", ("str", "e"), fn("STR$", num(i))), False) for i, e in enumerate(es)])
        if ch.chance(40): r.append([("clear",)] if ch.chance(40) else [("let", idx("FZB$", *[num(x) for x in es[0]]), ("str", ch.pick(["", "again"])), False)])
    elif k == 2:
        e = num("1.25")
        for i in range(ch.int(5, 14)): e = op(ch.pick(["+", "-", "*"]) if i < 5 else ch.pick(["+", "-"]), num("%d.5" % i), e)
        r.append([("print", [("e", e)], False)])
    else:
        e = ("str", "x1")
        for i in range(ch.int(2, 7)): e = op("+", ("str", "s%d" % i), ("par", e))
        r.append([("print", [("e", e), (";",), ("e", fn("LEN", e))], False)])
    return [(i + 1, ss) for i, ss in enumerate(r)]

def wide(ch):
    """a long reply, for one string or for several values"""
    t = ch.pick(["x", "1", "word ", "a,", "1,2,"])
    return (t * 250)[:ch.pick([31, 32, 62, 63, 64, 65, 79, 80, 81, 100, 126, 127, 128, 200, ch.int(20, 240)])]

def gen(ch):
    session = ch.chance(35)
    b = Builder(ch, items=ch.pick([3, 5, 7]), risk=2, input=ch.chance(35), rnd=ch.chance(30), stop=ch.chance(20), cls=True, ctx=25).build()
    lines = b.resolve()
    if ch.chance(20) and lines[0][0] > 3: lines = special(ch) + lines
    opts = [o for o in ["-t", "-f", "-g", "-m", "-q"] if ch.chance(45)]
    trace = "-t" in opts
    reps = []
    def replier():
        i = [0]
        def f():
            if i[0] == len(reps): reps.append(wide(ch) if ch.chance(10) else reply(ch))
            i[0] += 1
            return reps[i[0] - 1]
        return f
    if ch.chance(20): # draws of random numbers: the same with and without the options
        have = {n for n, _ in lines}
        i = ch.upto(len(lines) - 1)
        add = [(n + 1, [("print", [("e", ("str", "<<")), (";",), ("e", fn("INT", op("*", ("fn", "RND", None), num(32768)))), (";",), ("e", ("str", ">>"))], False)]) for n, _ in lines[i:i + 2] if n + 1 not in have and n < 65000]
        if ch.chance(50): add = [(a, [("let", var("FZR"), ("fn", "RND", None), False)] + ss) for a, ss in add]
        lines = sorted(lines + add, key=lambda x: x[0])
    tl = program_text(lines)
    if session:
        if "-g" in opts: opts.remove("-g")
        if any(len("%d %s" % l) > 120 for l in tl): raise Discard("long")
        ops = []
        extra = []
        for _ in range(ch.int(0, 4)):
            t = text_of(b.simples(2))
            w = re.match("[A-Za-z]*", t).group().upper()
            if len(t) <= 120 and w not in COMMANDS: extra.append(t)
        seq = ["typed" if ch.chance(60) else "load", "run"] + [("imm", t) for t in extra]
        if ch.chance(30): seq.append("edit")
        if ch.chance(40): seq.append("run")
        if ch.chance(20): seq.append("new")
        n = ch.pick(tl)[0]
        end = ch.chance(50)
        def play(tr):
            s = Session(replies=replier(), max_steps=3000)
            s.vm.rnd = lambda: 0.5
            if tr: s.vm.trace = lambda n: s.vm.put("[%d]" % n)
            files = {}
            clean = True
            for x in seq:
                if s.ended: raise Discard("ended")
                if x == "typed":
                    for l in tl: s.line(*l)
                elif x == "load": files["p.bas"] = file_text(tl); s.load("p.bas", tl)
                elif x == "run": clean &= s.run() == "end"
                elif x == "edit": s.line(n, "PRINT 1")
                elif x == "new": s.new()
                else: clean &= s.imm(x[1]) == "end"
            if end: s.bye()
            return s.finish([], files=files), clean
        base, clean = play(False)
        traced = play(True)[0] if trace else base
        args = []
        nlines = len(tl)
    else:
        def play(tr):
            stdin = []
            rp = replier()
            def reader():
                x = rp(); stdin.append(x + "\n"); return x + "\n"
            vm = Vm(reader=reader)
            seen = []
            vm.trace = (lambda n: (seen.append(n), vm.put("[%d]" % n))) if tr else seen.append
            vm.rnd = lambda: 0.5       # where it is shown, it is not compared with the model
            vm.load(tl, lines)
            how = vm.run_program()
            return file_run(tl, vm, "".join(stdin), []), how == "end", seen
        base, clean, seen = play(False)
        traced = play(True)[0] if trace else base
        if ch.chance(20): opts.append("-r")
        args = ["p.bas"]
        nlines = len(seen)
    a = [LONG[o] if ch.chance(30) else o for o in ch.shuffle(opts)]
    if ch.chance(20): a = args + a
    else: a = a + args
    return dict(base=dict(base, args=["-q"] + args), run=dict(traced, args=a), opts=opts, clean=clean, session=session, n=nlines)

DRAW = re.compile(r"<< \d+ >>")
def judge(case, sut):
    base = perform(case["base"], sut)
    drawn = DRAW.findall(base.out)
    base.out = DRAW.sub("<< 16384 >>", base.out)
    why = compare(case["base"], base)
    if why: return "without options: " + why
    r = perform(case["run"], sut)
    opts = case["opts"]
    what = "options %r: " % case["run"]["args"]
    if r.hung() or r.signal() or r.code() != base.code(): return what + r.describe()
    if DRAW.findall(r.out) != drawn: return what + "random numbers drawn: %r instead of %r" % (DRAW.findall(r.out)[:9], drawn[:9])
    out = r.out = DRAW.sub("<< 16384 >>", r.out)
    if "-q" not in opts:
        m = BANNER.match(out)
        if not m: return what + "no version information: %r" % out[:200]
        out = out[m.end():]
        if case["session"]: out = out.replace("Type HELP to list commands\n\n", "", 1)
    if "-m" in opts:
        m = MEM.search(out)
        if not m: return what + "no memory report: %r" % out[-200:]
        out = out[:m.start()]
        if case["clean"] and m.group(1) != m.group(2): return what + "%s blocks allocated, %s released" % m.groups()
    if "-f" in opts: out = FORLOG.sub("", out)
    want = case["run"]["out"]
    if case["run"]["errors"]: out = OVERFLOW.sub("", out)
    if out != want: return what + "apart from diagnostics, the output differs: " + diff(want, out)
    if "-g" in opts:
        if not r.err.endswith(base.err): return what + "standard error does not end with the error report %r: %r" % (base.err, r.err[-400:])
        if [e for e in events(r.err)] != [e for e in events(base.err)]: return what + "errors reported: %r" % r.err[-400:]
    elif r.err != base.err: return what + "standard error is %r instead of %r" % (r.err[-400:], base.err[-400:])
    return None

def nontrivial(c): return set(c["opts"]) - {"-q", "-r"} and c["n"] >= 5
def classes(c): return sorted(c["opts"]) + ["session" if c["session"] else "file", "normal end" if c["clean"] else "error or STOP"]
