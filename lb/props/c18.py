"""STOP, breaks and CONT: programs interrupted at chosen instants (function entries of the interpreter) and at STOPs, with inspecting
statements in between, against the uninterrupted run; and histories of STOP, edits and CONT by the reference interpreter."""
import re
from .common import *

VARIANTS = ["brk"]
CASES = dict(quick=27000, thorough=200000)
RULE = "at least one break was delivered while the program ran (or, in histories, at least one STOP was executed) and CONT was typed after it, or an endless program was interrupted at least twice"
CH = "ABCDEF abcdef0123456789.,:;!%&()*+-/="

class B18(Builder):
    pass

def inspections(ch, b, printing):
    r = []
    for _ in range(ch.size(0, 3)):
        k = ch.upto(7)
        v = var(ch.pick(b.env.nums + b.env.strs))
        if k == 0: r.append(("list", "LIST"))
        elif k == 1: r.append(("imm", ch.pick(["REM looking", "DATA 5,x", "DATA 1:REM", "DATA"[:0] + "REM", "DATA 2,3,4:DATA a"])))
        elif k == 2 or not printing:
            c = ch.pick(["IF %s=%s THEN REM x", "IF %s<>%s THEN REM"]) % (v[1], v[1])
            r.append(("imm", c))
        elif k == 3: r.append(("imm", "SAVETHIS"[:0] + 'PRINT "@[";%s;"]@"' % v[1]))
        elif k == 4: r.append(("imm", '?"@[";LEN("abc"+STR$(%s));"]@"' % ch.pick(b.env.nums)))
        elif k == 5: r.append(("imm", 'PRINT "@[";LEFT$("abc",2);"]@":REM'))
        elif k == 6: r.append(("imm", 'IF 1 THEN PRINT "@[";"]@" ELSE PRINT "@[";"no]@"'))
        else: r.append(("imm", 'PRINT "@[";%s;TAB(30);"]@"' % v[1]))
    return r

def plain_columns(lines):
    """leave out what depends on the print column"""
    def st(s):
        if s[0] == "print": return ("print", [(";",) if i == (",",) or i[0] in ("tab", "spc") else i for i in s[1]], s[2])
        if s[0] == "if":
            part = lambda p: ("stmts", [st(q) for q in p[1]]) if p is not None and p[0] == "stmts" else p
            return (s[0], s[1], part(s[2]), part(s[3])) + s[4:]
        return s
    return [(n, [st(s) for s in ss]) for n, ss in lines]

def nogt(lines):
    """Strings must not look like prompts, inspections or messages"""
    bad = [False]
    def st(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "str" and any(w in x[1] for w in (">", "@", "Break", "annot")): bad[0] = True
        if isinstance(x, (tuple, list)):
            for y in x: st(y)
    st(lines)
    return not bad[0]

def gen(ch):
    if ch.chance(35): return history(ch)
    if ch.chance(5): return abandon(ch)
    printing = ch.chance(50)
    b = Builder(ch, items=ch.pick([3, 5, 7]), stop=ch.chance(40), risk=1, rnd=ch.chance(20), clear=True, ctx=25).build()
    lines = b.resolve()
    if printing: lines = plain_columns(lines)
    if not nogt(lines): raise Discard("prompt-like text")
    tl = program_text(lines, ch if ch.chance(20) else None)
    s = Session(max_steps=3000)
    s.load("p.bas", tl)
    s.compile()
    how = s.run()
    stops = 0
    while how == "stop":
        stops += 1
        if stops > 10: raise Discard("many stops")
        how = s.cont()
    final = [[("print", [x for v in b.env.nums + b.env.strs for x in (("e", var(v)), (";",))][:30], False)]]
    ended = how
    for f in final: s.stmts(f)
    s.cont()
    base = s.finish(files={"p.bas": file_text(tl)})
    if base["out"].count(">") != len(s.stdin) + 1 or "@" in base["out"]: raise Discard("prompt-like text")
    plan = [[ch.int(0, 999) if ch.chance(70) else None for _ in range(ch.int(1, 5))] for _ in range(stops + 1)]
    pauses = [inspections(ch, b, printing) for _ in range(stops + sum(1 for p in plan for x in p if x is not None))]
    return dict(mode="break", base=base, plan=plan, pauses=pauses, tl=tl, final=text_of(final[0]), stops=stops, late=ch.int(0, 40) if ch.chance(30) else None, delivered=0, f=sorted(b.features))

def strip(out, listing):
    out = out.replace(listing, "")
    out = re.sub(r"@\[.*?\]@\n", "", out, flags=re.S)
    return out.replace("Break\n", "").replace("> ", "").replace("Cannot continue\n", "")

def judge(case, sut):
    if case["mode"] != "break": return judge_runs(case, sut)
    orig = case
    base = dict(case["base"], variant="brk")
    a = perform(base, sut)
    why = compare_(base, a)
    if why: return "without breaks: " + why
    # the periods in which breaks are trapped: RUN, then each CONT
    segs = list(a.counts[:case["stops"] + 1])
    lines = ['LOAD "p.bas"', "COMPILE", "RUN"]
    breaks = []
    session = 1
    case = dict(case, pauses=list(case["pauses"]))
    pauses = iter(case["pauses"])
    n = late = 0
    def pause():
        nonlocal session
        for kind, t in next(pauses, []):
            lines.append(t)
            session += 1
        lines.append("CONT")
        session += 1
    def length():
        """function entries from here to the end or the next STOP"""
        r = perform(dict(files=base["files"], args=["-q"], stdin="\n".join(lines) + "\n", variant="brk", breaks=breaks[:60]), sut)
        return r.counts[session - 1] if len(r.counts) >= session else 0
    for j in range(len(segs)):
        final = j == len(segs) - 1
        for x in case["plan"][j] if j < len(case["plan"]) else []:
            if x is None: continue
            # room for the statement that stops or fails
            left = (segs[0] if j == n == 0 else length()) - (16 if not final else 40 if a.err else 6)
            if left < 4: continue
            breaks.append([session, 1 + x * (left - 1) // 1000])
            n += 1
            pause()
        if final and case["late"] is not None:
            # a break near the very end, perhaps in a statement that fails
            left = segs[0] if j == n == 0 else length()
            if left > 20:
                breaks.append([session, max(left - case["late"], 1)])
                late = 1
                case["pauses"].append([])
                pause()
        if not final: pause()
    lines += [case["final"], "CONT"]
    run = dict(files=base["files"], args=["-q"], stdin="\n".join(lines) + "\n", variant="brk", breaks=breaks[:60])
    r = perform(run, sut)
    why = ended_(r, run)
    if why: return "with breaks %r: %s" % (breaks, why)
    if not n <= r.out.count("Break\n") <= n + late:
        raise Discard("a break fell outside the run")
    orig["delivered"] = n
    listing = "".join("%d %s\n" % tuple(x) for x in case["tl"])
    want, got = strip(a.out, listing), strip(r.out, listing)
    if want != got:
        from ..judge import diff
        return "with breaks %r, stdin %r: output differs from the uninterrupted run: %s; standard error %r" % (breaks, run["stdin"], diff(want, got), r.err[-300:])
    if a.err != r.err: return "with breaks %r, stdin %r: standard error is %r instead of %r" % (breaks, run["stdin"], r.err[-400:], a.err[-400:])
    return None

def deep(ch, n, atom, op, wrap=None):
    """An expression that holds n values while the innermost part is worked out"""
    e = atom
    for i in range(n):
        if wrap and ch.chance(20): e = "%s(%s)" % (ch.pick(wrap), e)
        e = "%s%s%s" % (ch.pick(["1", "2"]) if not atom.startswith('"') else '"a"', op, "(" + e + ")")
    return e

def abandon(ch):
    """A program that never ends, interrupted again and again and left; then statements that need all of the stacks"""
    s = Session(max_steps=3000)
    tl = []
    if ch.chance(50): tl.append((5, "DEF FNF(X)=X+(X+(X+(X+1)))"))
    first = 10
    for i in range(ch.int(1, 4)):
        k = ch.upto(5)
        if k == 0: t = "X=" + deep(ch, ch.int(2, 12), "1", "+", ["ABS", "INT"])
        elif k == 1: t = "A$=" + deep(ch, ch.int(2, 5), '"b"', "+")
        elif k == 2 and tl and tl[0][0] == 5: t = "X=" + deep(ch, ch.int(1, 4), "FNF(2)", "+")
        elif k == 3: t = 'A$=LEFT$("abc"+(STR$(' + deep(ch, ch.int(2, 8), "1", "+") + ")),2)"
        elif k == 4: t = "FOR I=1 TO " + deep(ch, ch.int(1, 6), "1", "+") + ":NEXT"
        else: t = "IF " + deep(ch, ch.int(2, 9), "1", "+") + '<LEN("a"+("b"+("c"))) THEN REM'
        if len(t) > 100: raise Discard("long")
        tl.append((10 * (i + 1), t))
    tl.append((60, "GOTO 10"))
    s.load("p.bas", tl)
    s.compile()
    files = {"p.bas": file_text(tl)}
    breaks = []
    period = 1
    ran = False
    n = ch.int(2, 40)
    hows = ch.pick([["GOTO 10"], ["RUN"], ["RUN", "GOTO 10"], ["RUN", "GOTO 10", "CONT"]])
    for i in range(n):
        h = ch.pick(hows) if ran else "RUN"
        s.type(h)
        s.say("Break")
        ran = True
        breaks.append([period, ch.int(60, 600)])
        period += 1
    for _ in range(ch.int(1, 3)):
        k = ch.upto(3)
        if k == 0: s.imm('PRINT ' + deep(ch, 15, "1", "+"))
        elif k == 1: s.imm('PRINT ' + deep(ch, 7, '"b"', "+"))
        elif k == 2: s.imm('FOR P=1 TO 2:FOR Q=1 TO 2:FOR R=1 TO 1:FOR S=1 TO 1:PRINT P;Q;:NEXT S,R,Q,P')
        else: s.imm('PRINT LEN(' + deep(ch, 6, '"b"', "+") + ")+" + "(" + deep(ch, 13, "1", "+") + ")")
    run = s.finish(files=files)
    return dict(mode="abandon", runs=[dict(run, variant="brk", breaks=breaks[:60])], conts=n, nstop=n)

from ..judge import compare as compare_, ended as ended_

def history(ch):
    """STOP, immediate statements, edits and CONT"""
    b = Builder(ch, items=ch.pick([2, 4]), stop=True, risk=3, dump=True, ctx=35).build()
    lines = b.resolve()
    # make sure of some STOPs
    for _ in range(ch.int(0, 2)):
        i = ch.upto(len(lines) - 1)
        if lines[i][1][-1][0] != "if": lines[i] = (lines[i][0], lines[i][1] + [("stop",)] + ([("print", [("e", ("str", "after"))], False)] if ch.chance(50) else []))
    if any(len(text_of(ss)) > 115 for _, ss in lines): raise Discard("long")
    s = Session(max_steps=4000)
    files = {}
    if ch.chance(50):
        for n, t in program_text(lines): s.line(n, t)
    else:
        tl = program_text(lines); files["p.bas"] = file_text(tl); s.load("p.bas", tl)
    conts = 0
    nstop = 0
    how = s.run()
    for _ in range(ch.size(1, 12)):
        nstop += how == "stop"
        k = ch.weighted([(8, "cont"), (3, "print"), (2, "let"), (1, "edit"), (1, "delete"), (1, "error"), (1, "syntax"), (1, "goto"), (1, "gosub"), (1, "run"), (1, "new"), (1, "list"), (1, "compile"), (1, "clear"), (1, "loop"), (1, "def"), (1, "stop"), (1, "save"), (1, "load")])
        v = ch.pick(b.env.nums)
        if k == "cont": how = s.cont(); conts += 1
        elif k == "print": s.stmts([("print", [("e", var(v)), (";",), ("e", var(ch.pick(b.env.strs)))], False)])
        elif k == "let": s.stmts([("let", var(ch.pick(b.env.nums)), num(ch.int(0, 9)), False)])
        elif k == "edit": s.line(ch.pick(sorted(s.stored) or [10]) + ch.int(0, 1), 'PRINT "new"')
        elif k == "delete": s.delete(ch.pick(sorted(s.stored) or [10]) + ch.upto(1))
        elif k == "error": s.stmts([ch.pick([("print", [("e", fn("LOG", num(0)))], False), ("goto", 64999), ("return",), ("next", ("ZZ",)), ("read", [var("ZZ$")])])])
        elif k == "syntax": s.imm("PRINT )")
        elif k == "goto" and s.stored: how = s.stmts([("goto", ch.pick(sorted(s.stored)))])
        elif k == "gosub" and s.stored: how = s.stmts([("gosub", ch.pick(sorted(s.stored)))])
        elif k == "run": how = s.run()
        elif k == "new" and ch.chance(30): s.new()
        elif k == "list": s.list()
        elif k == "compile": s.compile()
        elif k == "clear": s.stmts([("clear",)])
        elif k == "loop": s.stmts([("for", "Q1", num(1), num(2), None), ("print", [("e", var("Q1")), (";",)], False), ("next", ())])
        elif k == "def":
            x = ch.pick(list(b.env.fns) + ["FNQ"])
            s.imm("DEF %s(Q9)=%s" % (x, 'STR$(Q9)+"!"' if x.endswith("$") else "Q9*%d+1" % ch.int(2, 9)))
            if ch.chance(50): s.imm("PRINT %s(2)" % x)
        elif k == "stop": s.stmts([("stop",)])
        elif k == "save": s.save("q.bas")
        elif k == "load" and files and ch.chance(50): s.load("p.bas", tl)
    s.stmts([("print", [x for v in (b.env.nums + b.env.strs)[:8] for x in (("e", var(v)), (";",))], False)])
    run = s.finish(files=files)
    return dict(mode="history", runs=[dict(run, variant="brk")], conts=conts, nstop=nstop)

def nontrivial(c): return c["mode"] == "break" and c["delivered"] + c["stops"] > 0 or c["mode"] != "break" and c["conts"] and c["nstop"]
def classes(c):
    if c["mode"] != "break": return [c["mode"], "stops %d" % min(c["nstop"], 4)]
    return ["breaks %d" % c["delivered"], "STOPs" if c["stops"] else "no STOP"] + c["f"]
