"""One program run in several ways: command line, LOAD, typed in any order with corrections, RUN repeatedly, and after all kinds of
histories in the session. All runs must print and report the same (metamorphic), and what the reference interpreter says."""
from .common import *
import re
from ..judge import compare, events, diff
from .. import parse as P

VARIANTS = ["plain"]
CASES = dict(quick=15000, thorough=250000)
RULE = "the program was run from the command line and at least once in a session with a history (earlier program or run, immediate statements, corrections, errors, STOP) before the RUN"
MARK = "@@"

def gen(ch):
    b = Builder(ch, items=ch.pick([3, 5, 7]), risk=3, input=ch.chance(30), stop=ch.chance(20), cls=ch.chance(20), ctx=15).build()
    lines = b.resolve()
    if ch.chance(25):
        # depends on what RUN must have cleared
        pre = [ch.pick([[("print", [("e", var(v)) for v in b.env.nums[:2]], False)], [("read", [var(b.env.strs[0])])], [("next", ())], [("next", ("H2",))], [("next", ("H0",))], [("return",)],
                        [("print", [("e", idx("FNH", num(1)))], False)], [("print", [("e", idx("W9", num(12)))], False)], [("print", [(",",), ("e", num(1))], False)]])]
        first = lines[0][0]
        if first > 1: lines = [(first - 1, pre[0])] + lines
    tl = program_text(lines)
    if any(len("%d %s" % l) > 124 for l in tl): raise Discard("long")
    reps = []
    def replier():
        i = [0]
        def f():
            if i[0] == len(reps): reps.append(reply(ch))
            i[0] += 1
            return reps[i[0] - 1]
        return f
    stdin = []
    rp = replier()
    def reader():
        x = rp(); stdin.append(x + "\n"); return x + "\n"
    vm = Vm(reader=reader, max_steps=4000); vm.load(tl, lines); how = vm.run_program()
    base = file_run(tl, vm, "".join(stdin), ch.pick([["-q"], ["-q", "-r"], ["--run", "-q"]]))
    case = dict(base=base, runs=[], hist=[], nruns=1, how=how, n=len(tl))
    for _ in range(ch.int(1, 2)):
        cur = [lambda: "0"]
        s = Session(replies=lambda: cur[0](), max_steps=30000)
        files = {}
        hist = []
        def imm(t):
            if len(t) <= 120 and not s.ended: s.imm(t)
        env = b.env
        def history():
            k = ch.weighted([(3, "imm"), (2, "openfor"), (2, "vars"), (1, "error"), (1, "syntax"), (1, "def"), (1, "col"), (2, "otherprog"), (1, "list"), (1, "data"), (1, "sub"), (1, "left"), (2, "edited"), (2, "variant")])
            hist.append(k)
            if k == "imm":
                t = text_of(b.simples(2))
                w = ""
                for c in t:
                    if not c.isalpha(): break
                    w += c.upper()
                if w not in COMMANDS: imm(t)
            elif k == "openfor": imm("FOR %s=1 TO 9" % ch.pick(env.nums))
            elif k == "vars":
                for v in env.nums[:3]: imm("%s=77" % v)
                for v in env.strs[:2]: imm('%s="left over"' % v)
                for a, m in sorted(env.arrs.items())[:2]: imm("%s(%s)=%s" % (a, ",".join("1" for _ in m), '"old"' if is_str(a) else "66"))
            elif k == "error": imm(ch.pick(["PRINT LOG(0)", "NEXT ZZ", "RETURN", "GOTO 64999", "X9(1,2,3)=4"]))
            elif k == "syntax": imm(ch.pick(["PRINT )", "X=", "FOR"]))
            elif k == "def": imm("DEF FNH(X)=X+1000")
            elif k == "col": imm('PRINT "column";')
            elif k == "list": s.list()
            elif k == "data": imm("READ Q$"); imm("DATA 5,6:READ Q$")
            elif k == "left":
                # loops and calls left unfinished by a program
                n = ch.int(2, 6)
                o = [(i + 1, ch.pick(["FOR H%d=1 TO 3" % i, "GOSUB %d" % (i + 2)])) for i in range(n)] + [(n + 1, ch.pick(["STOP", "END", "PRINT LOG(0)", "REM", "GOTO 64999"]))]
                if ch.chance(50): o = [(i + 1, "FOR H%d=1 TO 3" % i) for i in range(n)] + [(n + 1, ch.pick(["STOP", "END", "REM"]))]
                s.new()
                for l in o: s.line(*l)
                s.run()
            elif k == "edited" and s.stored:
                # run with a line more, or with one line different, which is then taken back
                was = sorted(s.stored.items())
                n, t = ch.pick(was) if ch.chance(40) else was[-1]
                m = n + ch.int(1, 9)
                if ch.chance(60) and m not in s.stored and m < 65000:
                    s.line(m, ch.pick(["PRINT 888", "REM", "STOP", "FOR H0=1 TO 2", "PRINT 888:END"])); back = (m, None)
                else: s.line(n, ch.pick(["PRINT 999", "REM", "PRINT 999:END", "STOP"])); back = (n, t)
                if ch.chance(85): s.run()
                if not s.ended:
                    if back[1] is None: s.delete(back[0])
                    else: s.line(*back)
            elif k == "variant":
                # a program of much the same shape
                o = [(n, re.sub(r"[0-9](?![0-9]*(,[0-9]+)*$)", lambda m: str((int(m.group(0)) + 1) % 10), t, count=1) if '"' in t or "=" in t and "IF" not in t.upper() else t) for n, t in tl]
                if ch.chance(50): o = [(n, ch.pick(["X=1:PRINT X", "REM", "PRINT 1", "X=1", "PRINT 1;", "X=1:Y=2", "FOR I=1 TO 1:NEXT"])) for n, t in tl]
                if P.parse_program(o)[1] is None:
                    s.new()
                    for l in o: s.line(*l)
                    s.run()
            elif k == "sub" and s.stored: imm("GOSUB %d" % ch.pick(sorted(s.stored)))
            elif k == "otherprog" and ch.chance(60):
                # another program, run and replaced
                o = ch.pick([[(5, "FOR I=1 TO 3"), (6, "GOSUB 7"), (7, "STOP")], [(1, "DIM W9(20):W9(12)=5"), (2, "DEF FNH(X)=X"), (3, "READ A$:PRINT A$"), (4, "DATA q,r"), (5, "PRINT LOG(0)")],
                             [(10, "GOSUB 20"), (20, "GOSUB 30"), (30, "FOR J=1 TO 2"), (40, "STOP")], [(10, "A=1:B=2:X=3:PRINT A,")]])
                s.new()
                for l in o: s.line(*l)
                s.run()
        for _ in range(ch.size(0, 4)): history()
        if s.ended: raise Discard("ended")
        enter = ch.weighted([(3, "typed"), (3, "shuffled"), (2, "load"), (2, "fix")])
        if s.stored and enter != "load": s.new()
        elif s.have and ch.chance(50): s.new()
        if enter == "load": files["p.bas"] = file_text(tl); s.load("p.bas", tl)
        else:
            order = ch.shuffle(tl) if enter != "typed" else tl
            todo = []
            for n, t in order:
                if enter == "fix" and ch.chance(40):
                    s.line(n, ch.pick(["PRINT 999", "rem wrong", "PRINT )", "X=5", t + " "]))
                    if ch.chance(50): todo.append((n, t)); continue
                if enter == "fix" and ch.chance(20):
                    m = n + ch.pick([-1, 1])
                    if m > 0 and m not in dict(tl) and m < 65000: s.line(m, "PRINT 888"); todo.append((m, None))
                if enter == "fix" and ch.chance(10): imm("PRINT 1")
                s.line(n, t)
            for n, t in todo:
                if t is None: s.delete(n)
                else: s.line(n, t)
        if ch.chance(30):
            s.save("q.bas"); hist.append("saved")
            if ch.chance(50): s.new(); s.load("q.bas", tl); hist.append("reloaded")
        nruns = ch.int(1, 3)
        for i in range(nruns):
            if i or ch.chance(40):
                for _ in range(ch.size(0, 3)):
                    if s.ended: raise Discard("ended")
                    h = len(hist); st0 = dict(s.stored)
                    history()
                    if s.stored != st0:
                        s.new()
                        for l in tl: s.line(*l)
            if s.ended: raise Discard("ended")
            cur[0] = replier()
            s.imm('PRINT "%s"' % MARK)
            if how == "end" or True:
                n0 = len(s.reports); o0 = len(s.vm.out)
                h = s.run(ch.pick(["RUN", "RUN", "run"]))
                seg = "".join(s.vm.out[o0:])
                if s.ended: raise Discard("ended")
                if h != how or seg != "> " + base["out"] or s.reports[n0:] != base["errors"]: raise AssertionError("model: runs differ %r %r\n%r\n%r\n%r\n%r" % (seg, base["out"], h, how, s.reports[n0:], s.finish()["stdin"][-900:]))
            cur[0] = lambda: "0"
            case["nruns"] += 1
        case["runs"].append(s.finish(files=files))
        case["hist"] += hist + [enter]
    return case

def judge(case, sut):
    r = perform(case["base"], sut)
    why = compare(case["base"], r)
    if why: return "from the command line: " + why
    for i, run in enumerate(case["runs"]):
        q = perform(run, sut)
        why = compare(run, q)
        if why: return "session %d, stdin %r: %s" % (i, run["stdin"][-600:], why)
        for n, t in run.get("saved", {}).items():
            if sut.get(n) != t: return "session %d: saved file %r" % (i, sut.get(n))
        # every RUN prints what the command line printed
        for part in q.out.split(MARK + "\n> ")[1:]:
            if not (part.startswith(r.out) if not events(r.err) else True): return "session %d: RUN printed %r, the command line %r" % (i, part[:300], r.out[:300])
    return None

def nontrivial(c): return len(c["hist"]) > 1 or c["nruns"] > 2
def classes(c): return sorted(set(c["hist"])) + [c["how"], "runs %d" % c["nruns"]]
