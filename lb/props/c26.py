"""RND: programs and sessions that draw random numbers with other statements in between. The numbers drawn are compared between runs:
same start, same numbers; RANDOMIZE n, numbers that depend on n only; other statements in between, no difference; and all in range."""
import re
from .common import *
from ..judge import ended

VARIANTS = ["plain"]
CASES = dict(quick=18000, thorough=150000)
RULE = "at least 5 numbers drawn, with at least 3 other statements in between in one of the runs compared (or a seed known to make the C library's generator return its largest value)"
ASSUMPTIONS = ["nothing is assumed of the numbers themselves but their range, their spread, and equality or difference between runs"]

# the C library's rand() returns RAND_MAX, or 0, within 60 calls after these seeds
EDGE = [50091614, 60959953, 39969224, 27378981, 9560478, 16818278, 22312356, 63575909, 67001488, 74617010]
DRAWN = re.compile(r"<< *(-?[0-9.e+-]+) *, *(-?[0-9.e+-]+) *>>(OUT)?")
FORMS = ["RND", "RND", "RND(1)", "RND(0)", "RND(X)", "RND()", "rnd"] + ['RND("x")', "RND(S9$)", "RND(A9$(1))", "RND(A9$(10))", "RND(A9(1))", "RND(A9(1,2))"[:0] or "RND(-1)", "RND(A9$(0))", 'RND("a"+S9$)', "RND(LEFT$(S9$,2))", "RND(CHR$(65))", "RND(LEN(S9$))", "RND(STR$(X))", "RND(-(2+3))", "RND(TIME$)", "RND(1=2)", 'RND("a"<"b")', "RND(A9$(1)+S9$)"]

def draw(ch):
    """statements that draw one number and print it (in two parts, as PRINT shows six digits), checking its range"""
    f = ch.pick(FORMS if ch.chance(35) else FORMS[:7])
    return 'R8=%s:R9=INT(R8*32768):PRINT "<<";R9;",";INT((R8*32768-R9)*32768);">>";:IF R8<0 OR R8>=1 THEN PRINT "OUT";' % f

def seedtext(ch, n):
    if ch.chance(70): return "%d" % n
    if n < 1000000: return ch.pick(["(%d)" % n, "%d+0" % n, "%d*1" % n, "INT(%d.5)" % n])
    return "%d" % n

class Noise(Builder):
    pass

def noise(ch, b, typed):
    """a line that draws no numbers"""
    for _ in range(5):
        k = ch.upto(7)
        if k <= 3: t = text_of(b.simples(2))
        elif k == 4: t = ch.pick(["DIM Z9(5)", "FOR Z8=1 TO 3:NEXT", "DEF FNZ(X)=X+1", "PRINT FNZ9", "GOSUB 9000", "CLEAR", "RESTORE", "CLS", "GOSUB 9010", "FOR Z8=1 TO 2:GOSUB 9010:NEXT", "FOR Z8=1 TO 2:CLS:NEXT", "Q9=LEN(TIME$)", "PRINT SIN(1);EXP(2)", "S9$=STR$(5)+CHR$(65)", "PRINT TAB(5);SPC(3);", "LET T=1:REM x", 'Z$=TIME$', "IF 1 THEN PRINT 2 ELSE PRINT 3", "ON 2 GOSUB 9000,9000"])
        elif k == 5 and typed: t = ch.pick(["LIST", "PRINT LOG(0)", "PRINT )", "CONT", "GOTO 64999", "8500 REM x", "8500", "COMPILE", 'SAVE "f"'])
        else: t = 'PRINT "n"'
        if len(t) <= 110: return t
    return "REM"

def source(ch, b, seed, n, where, noisy):
    """A run that draws n numbers in line, the seed being set before them (seed None: not at all). Returns a run."""
    deep = ch.int(1, 6) if ch.chance(25) else 0
    sub = ["9000 RETURN", "9010 " + ch.pick(["CLS", "PRINT 1", "RESTORE", "DIM Z7(3)", "FOR Z6=1 TO 2:CLS:NEXT", "IF 1 THEN CLS", "Z5=SIN(1)", "READ Z4:RESTORE", "DEF FNY(X)=X:Z3=FNY(2)", "CLS:CLS", "ON 1 GOSUB 9000", "GOSUB 9000"]) + ":RETURN", "9020 DATA 1"]
    if where == "stopped":
        # a program that stops after each number, in loops and subroutines, and is continued
        t = []
        deep = [ch.pick(["GOSUB", "FOR"]) for _ in range(ch.int(1, 5))]
        for i, d in enumerate(deep): t.append("%d %s" % (10 * len(t) + 10, "GOSUB %d" % (10 * len(t) + 20 if i < len(deep) - 1 else 500) if d == "GOSUB" else "FOR G%d=1 TO 1" % i))
        t.append("%d FOR Q9=1 TO %d" % (500, n))
        t += ["510 " + draw(ch), "520 STOP", "530 NEXT", "540 END"]
        if seed is not None: t.insert(0, "1 RANDOMIZE " + seedtext(ch, seed))
        t.append("RUN")
        for _ in range(n):
            for _ in range(ch.int(0, 2) if noisy else 0):
                t.append(ch.pick(["PRINT 1", "X=1:PRINT X", "Z$=TIME$", "LIST", "PRINT SIN(1)", "REM", "IF 1 THEN PRINT 2", "PRINT )", "FOR Z8=1 TO 3:NEXT", "CLS", 'SAVE "f"', "FOR Z8=1 TO 2:FOR Z7=1 TO 2:NEXT:NEXT", "DIM Z6(3)", 'A$="x"+STR$(3)', "PRINT Q9;G0"]))
            t.append("CONT")
        return dict(args=["-q"], stdin="".join(x + "\n" for x in t))
    if where == "file":
        lines = []
        if seed is not None:
            if noisy and ch.chance(60):
                for _ in range(ch.int(0, 3)): lines.append(noise(ch, b, False))
                for _ in range(ch.int(0, 3)): lines.append(draw(ch).replace("<<", "[[").replace(">>", "]]"))
                if ch.chance(30): lines.append("RANDOMIZE %d" % ch.int(0, 99))
                if ch.chance(20): lines.append("RANDOMIZE")
            lines.append("RANDOMIZE " + seedtext(ch, seed))
        how = ch.upto(2) if not noisy else 0
        if how == 1: lines.append("FOR Q9=1 TO %d:%s:NEXT" % (n, draw(ch).split(":IF")[0]))
        else:
            for _ in range(n):
                if noisy and ch.chance(60): lines.append(noise(ch, b, False))
                lines.append(draw(ch))
        # some of it deep in subroutines, or in loops
        if deep:
            at = ch.upto(len(lines)) if noisy else 0
            if ch.chance(60): lines[at:at] = ["GOSUB %d" % (10 * (at + i + 2)) for i in range(deep)]
            else: lines[at:at] = ["FOR G%d=1 TO 1" % i for i in range(deep)]
        lines = ["%d %s" % (10 * (i + 1), t) for i, t in enumerate(lines)] + ["8999 END"] + sub
        # a program that fails or stops is not in the domain
        tl = [(int(x.split(" ", 1)[0]), x.split(" ", 1)[1]) for x in lines]
        asts, bad = parse.parse_program(tl)
        if asts is None: raise Discard("noise: " + tl[bad][1])
        vm = Vm(max_steps=4000); vm.rnd = lambda: 0.5; vm.time = "00:00:00"
        vm.load(tl, asts)
        if vm.run_program() != "end": raise Discard("noise fails")
        return dict(files={"p.bas": file_text(tl)}, args=["-q", "p.bas"], stdin="")
    s = []
    s += sub
    if seed is not None:
        if noisy:
            for _ in range(ch.int(0, 2)): s.append(noise(ch, b, True))
            for _ in range(ch.int(0, 3)): s.append("PRINT RND")
        s.append("RANDOMIZE " + seedtext(ch, seed))
    done = 0
    while done < n:
        if noisy and ch.chance(60): s.append(noise(ch, b, True))
        d = draw(ch)
        if ch.chance(30):
            s += ["100 " + d, "110 END", ch.pick(["RUN", "GOTO 100"])]
        else:
            s.append(d)
        done += 1
    if any(len(x) > 126 for x in s): raise Discard("long")
    return dict(args=["-q"], stdin="".join(x + "\n" for x in s))

def gen(ch):
    b = Builder(ch, items=1, risk=0, data=False, input=False, rnd=False, rndexpr=False, clear=False, cls=True)
    b.env.wild = False
    mode = ch.weighted([(4, "noise"), (4, "seed"), (3, "differ"), (2, "edge"), (2, "time"), (1, "spread"), (1, "options")])
    n = ch.int(3, 12)
    nn = lambda: ch.chance(85)
    w = lambda: ch.pick(["file", "file", "session", "session", "stopped"])
    runs = []
    same = True
    if mode == "noise":
        runs = [source(ch, b, None, n, "file", False), source(ch, b, None, n, w(), True)]
        if ch.chance(50): runs[1]["faketime"] = ch.int(1, 2000000000)
    elif mode == "seed":
        seed = ch.pick([0, 1, 2, 100, 65535, 65536, 2147483647, 2147483648, 4294967295, ch.int(0, 10000), ch.int(0, 2147483647)])
        runs = [source(ch, b, seed, n, w(), False), source(ch, b, seed, n, w(), True)]
        if ch.chance(50): runs[1]["faketime"] = ch.int(1, 2000000000)
    elif mode == "differ":
        a = ch.int(1, 99999) if ch.chance(60) else ch.int(1, 2147483647)
        c = ch.pick([a + 1, a + 2, a + 256, a + 65536, a * 2 & 2147483647, a + ch.int(1, 99999), 100000, a ^ 1 << ch.upto(30), a ^ 1 << ch.upto(30), a ^ 1 << ch.upto(30)]) & 2147483647
        if c == 0: c = a + 2
        if c == a: c += 1
        n = max(n, 6)
        runs = [source(ch, b, a, n, w(), False), source(ch, b, c, n, w(), nn())]
        same = False
    elif mode == "edge":
        seed = ch.pick(EDGE)
        t = ["10 RANDOMIZE %d" % seed, "20 FOR I=1 TO 60", "30 " + draw(ch), "40 NEXT"]
        runs = [dict(files={"p.bas": "\n".join(t) + "\n"}, args=["-q", "p.bas"], stdin="")]
        n = 60
    elif mode == "time":
        # --randomize and RANDOMIZE take the time of day
        t1 = ch.int(1, 2000000000)
        t2 = t1 if ch.chance(50) else t1 + ch.pick([1, 60, 86400, ch.int(1, 1000000)])
        same = t1 == t2
        n = max(n, 6)
        def timed(t):
            r = source(ch, b, None, n, w(), ch.chance(50))
            if ch.chance(50): r["args"] = [ch.pick(["-z", "--randomize"])] + r["args"]
            elif "files" in r: r["files"]["p.bas"] = "1 RANDOMIZE\n" + r["files"]["p.bas"]
            else: r["stdin"] = "RANDOMIZE\n" + r["stdin"]
            return dict(r, faketime=t)
        runs = [timed(t1), timed(t2)]
    elif mode == "spread":
        n = 300
        t = ["%d %s" % (i + 1, ch.pick(["GOSUB %d" % (i + 2 if i < 5 else 10), "FOR G%d=1 TO 1" % i, "REM"])) for i in range(6)] if ch.chance(50) else []
        t += ["10 RANDOMIZE %d" % ch.int(0, 99999) if ch.chance(80) else "10 REM"] + ["20 FOR I=1 TO 300", "30 " + draw(ch), "40 NEXT"]
        runs = [dict(files={"p.bas": "\n".join(t) + "\n"}, args=["-q", "p.bas"], stdin="")]
    else:
        r = source(ch, b, None, n, "file", False)
        o = ch.shuffle(["-t", "-f", "-m", "-k"])[:ch.int(1, 3)]
        runs = [r, dict(r, args=o + r["args"])]
        mode = "options"
    return dict(mode=mode, runs=runs, same=same, n=n)

def judge(case, sut):
    seqs = []
    for i, run in enumerate(case["runs"]):
        r = perform(run, sut)
        why = ended(r, run)
        if why: return "run %d: %s" % (i, why)
        out = re.sub(r"\[\d+\]", "", r.out) if case["mode"] == "options" else r.out
        if "OUT" in re.sub(r'PRINT "OUT', "", out): return "run %d: a number outside 0 <= x < 1 was drawn: %r" % (i, out[-300:])
        got = [(int(a), int(b)) for a, b, _ in DRAWN.findall(out)]
        if len(got) != case["n"]:
            return "run %d: %d numbers were drawn instead of %d: %r" % (i, len(got), case["n"], r.out[-300:])
        for a, b in got:
            if not (0 <= a < 32768 and 0 <= b < 32768): return "run %d: number outside the range: %r" % (i, (a, b))
        seqs.append(got)
    if len(seqs) == 2:
        if case["same"] and seqs[0] != seqs[1]: return "the numbers drawn differ: %r and %r" % tuple(seqs)
        if not case["same"] and seqs[0] == seqs[1]: return "the numbers drawn are the same: %r" % seqs[0]
    else:
        if len(set(seqs[0])) < case["n"] // 2: return "numbers drawn repeat: %r" % seqs[0][:20]
        if case["mode"] == "spread":
            m = sum(a for a, _ in seqs[0]) / 32768.0 / len(seqs[0])
            if not 0.3 < m < 0.7: return "300 numbers have the mean %g" % m
            for lo in range(4):
                if not any(lo <= a / 8192.0 < lo + 1 for a, _ in seqs[0]): return "no number of 300 is in [%g, %g)" % (lo / 4, (lo + 1) / 4)
    return None

def nontrivial(c): return c["n"] >= 5 or c["mode"] == "edge"
def classes(c): return [c["mode"], "same" if c["same"] else "different"]
