"""Fuzzing of interactive sessions under sanitizers, coverage guided. After every fuzzed line the session must still obey SAVE,
and the file saved must hold the program that was typed."""
from .common import *
from ..fuzz import *
from .c13 import verdict, BREAKS

VARIANTS = ["san"]
CASES = dict(quick=20000, thorough=300000)
GUIDED = True
RULE = "at least 3 lines typed after which the session was probed, of which at least one is an invalid command, statement or program line, or fails"
ASSUMPTIONS = ["a statement or program that loops for ever is interrupted by a break after 20000 function entries of the interpreter; the session must then return to the prompt",
               "typed lines contain no NUL character in the probed sessions"]

CMDS = ["RUN", "LIST", "CONT", "COMPILE", "HELP", "RUN", "LIST 10", "LIST 10-20", "LIST -20", "LIST 20-", "RUN", "run", "List"]
BADCMDS = ["LIST A", "LIST 10-20-30", "LIST 5 5", "LIST 99999999999", "BYE X", "BYE 1", "NEW 1", "NEW X", "LOAD", "LOAD x.bas", 'LOAD "', 'LOAD "missing"', 'LOAD "missing" 2', 'LOAD ""', "SAVE", "SAVE x", 'SAVE ""',
           'SAVE "nodir/x"', "RENUM X", "RENUM 10 20", "RENUM 0", "RENUM 70000", "RENUM 65535,1,1000", "*", "* ", "*echo", "CONT", "RUNX", "RENUMBERX", "LISTS", "COMPILE X", "RUN 10", "10.5", "LIST-", "LIST P X", "BYEBYE", "NEWS=1"]
NUMS = ["0", "10", "20", "30", "40", "15", "1", "65535", "65536", "4294967295", "4294967294", "4294967296", "99999999999999999999", "00010", "010"]

def edit(stored, line):
    """The effect of a typed line on the stored program"""
    p = line.lstrip(" \t")
    if not p[:1].isdigit() or p[0] not in "0123456789": return
    i = 0
    while i < len(p) and p[i] in "0123456789": i += 1
    n = min(int(p[:i]), 4294967295)
    if n == 0 or n == 4294967295: return
    t = p[i:]
    if t == "": stored.pop(n, None)
    else: stored[n] = t[1:] if t[0] == " " else t

def scenario(ch):
    r = []
    body = [ch.pick(["FOR I=1 TO 3", "GOSUB 40", "STOP", "PRINT LOG(0)", "NEXT", "RETURN", "DATA 1,2", "READ A", "DEF FNA(X)=LOG(X)", "PRINT FNA(0)", "PRINT FNA(1)", "REM", "A$=A$+\"x\"", "GOTO 20", "IF N<3 THEN N=N+1:GOTO 20", "END",
                     "PRINT 1", "DIM Q(5)", "Q(3)=1", "ON N GOTO 20,30", "PRINT \"x\";:STOP", "FOR J=1 TO 2:STOP:NEXT", "GOSUB 50:STOP", "PRINT I;N", "RESTORE 40", "CLEAR", "PRINT LOG(0)", "STOP"]) for _ in range(ch.int(2, 6))]
    for i, t in enumerate(body): r.append("%d %s" % (10 * (i + 2), t))
    if ch.chance(35):
        # run, stop, delete from the end, go on
        if "STOP" not in body[:-1]: body[ch.upto(len(body) - 2)] = "STOP"; r[:] = ["%d %s" % (10 * (i + 2), t) for i, t in enumerate(body)]
        r.append("RUN")
        for i in range(ch.int(1, 3)): r.append("%d" % (10 * (len(body) + 1 - i)))
        r += [ch.pick(["CONT", "CONT", "RUN", "NEXT", "RETURN", "GOTO %d" % (10 * (len(body) + 1))]) for _ in range(ch.int(1, 3))]
    for _ in range(ch.int(2, 8)):
        n = 10 * ch.int(1, len(body) + 2)
        r.append(ch.pick(["RUN", "RUN", "CONT", "CONT", "%d" % n, "%d" % n, "%d %s" % (n, ch.pick(["STOP", "PRINT LOG(0)", "PRINT )", "NEXT", "REM x"])), "GOTO %d" % n, "GOSUB %d" % n, "NEXT", "RETURN", "PRINT LOG(0)", "FOR K=1 TO 2",
                          "DEF FNA(X)=X+LOG(X)", "PRINT FNA(0)", "PRINT FNA(1)", "READ A", "RESTORE %d" % n, "STOP", "NEW", "CLEAR", "LIST", "PRINT Q(3)", "COMPILE", "FOR K=1 TO 2:GOSUB %d" % n, "PRINT I;A$", "NEXT K", "PRINT )", "FNA=1", "DIM FNA(3)"]))
    return r

def gen(ch):
    strict = ch.chance(65)
    lines = ["10 REM first"]
    kinds = ["line"]
    if ch.chance(60):
        ls, b = program(ch, input=not strict, rnd=True, stop=True, cls=True, risk=10, items=3)
        for n, t in program_text(ls):
            if len("%d %s" % (n, t)) <= 126: lines.append("%d %s" % (n, t))
        kinds = ["line"] * len(lines)
    bad = 0
    names = [l.split(" ", 1)[1] for l in lines]
    if ch.chance(30):
        # a program in progress (stopped, failed, loops and calls pending) that is then changed and continued
        new = scenario(ch)
        lines += new; kinds += ["scenario"] * len(new); bad += 1
        names = names + ["PRINT LOG(0)", "GOTO 30", "NEXT", "RETURN"]
    m = ch.size(3, 16)
    brks = []
    files = {}
    for _ in range(m):
        k = ch.weighted([(3, "cmd"), (3, "badcmd"), (5, "soup"), (4, "mut"), (3, "nsoup"), (3, "nmut"), (2, "stress"), (1, "nstress"), (1, "num"), (1, "new"), (2, "good"), (1, "long"), (1, "bytes")])
        if k == "cmd": t = ch.pick(CMDS)
        elif k == "badcmd": t = ch.pick(BADCMDS); bad += 1
        elif k == "soup": t = soup(ch); bad += 1
        elif k == "mut": t = mutate_tokens(ch, ch.pick(names), 2); bad += 1
        elif k == "nsoup": t = ch.pick(NUMS) + " " + soup(ch); bad += 1
        elif k == "nmut": t = ch.pick(NUMS) + ch.pick([" ", " ", "  ", ""]) + mutate_tokens(ch, ch.pick(names), 2); bad += 1
        elif k == "stress": t = stress(ch); bad += 1
        elif k == "nstress": t = ch.pick(NUMS) + " " + stress(ch); bad += 1
        elif k == "num": t = ch.pick(NUMS)
        elif k == "new": t = "NEW"
        elif k == "good": t = ch.pick(names)
        elif k == "long":
            if ch.chance(30): t = ch.pick(["10 ", "PRINT ", "", "LIST "]) + ch.pick(["x", "7 ", "30 REM ", "8:", "9 x "]) * (ch.magic(30, 600) or 60)
            else: t = (ch.pick(["10 ", "PRINT ", "", "LIST "]) + ch.pick(["x", "x", "7 ", "9 x ", "30 REM "]) * 400)[:ch.pick([114, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 254, 255, 256, 257, 258, 400, 1024, 1600])]
            bad += 1
        else: t = mutate_bytes(ch, ch.pick(names), 4); bad += 1
        t = t.replace("\n", " ")
        if strict:
            t = t.replace("\0", " ")
            u = t.upper()
            if "INPUT" in u or re.match(r"\s*LIST[^A-Z]*P", u): continue
            q = u.lstrip(" \t")
            w = re.match(r"[A-Z]*", q).group(0)
            if w in ("BYE", "LOAD", "SAVE", "RENUM", "RENUMBER", "NEW") and k not in ("badcmd", "new"): continue
            if w in ("RENUM", "RENUMBER"): continue
        lines.append(t); kinds.append(k)
    if not strict:
        for _ in range(ch.size(0, 3)):
            extra = ch.pick(["RENUM", "RENUM 100", "RENUM 5,20,1", "LIST P", "listp", 'LOAD "f.bas"', 'SAVE "f.bas"', 'LOAD "g.bas"', "RUN", "CONT", "BYE", "NEW", "RENUM 65000,1,100", "RENUM 1000,20,0"])
            i = ch.int(1, len(lines))
            lines.insert(i, extra)
        text = "".join("%d %s\n" % (10 * (i + 1), mutate_tokens(ch, ch.pick(names), 1) if ch.chance(50) else ch.pick(names)) for i in range(ch.size(1, 8)))
        if ch.chance(40): text = mutate_bytes(ch, text, 6)
        files = {"g.bas": text}
    for sess in range(1, 64):
        if ch.chance(5): brks.append([sess, ch.int(1, 2000)])
        brks += [[sess, 20000], [sess, 300000], [sess, 5000000]] # the first may be lost while a large program is compiled
    return dict(lines=lines, files=files, strict=strict, bad=bad, brks=brks, eof=ch.chance(50), kinds=sorted(set(kinds)), open=ch.chance(5))

import re
def judge(case, sut):
    text = []
    want = {}
    stored = {}
    for i, l in enumerate(case["lines"]):
        text.append(l)
        if case["strict"]:
            if len(l) <= 126:
                edit(stored, l)
                if l == "NEW": stored = {}
            text.append('SAVE "s%d"' % i)
            want["s%d" % i] = "".join("%d %s\n" % x for x in sorted(stored.items()))
    if not case["eof"]: text.append("BYE")
    stdin = "\n".join(text) + ("" if case["open"] else "\n")
    run = dict(files=case["files"], args=["-q"], stdin=stdin, variant="san", breaks=case["brks"])
    r = perform(run, sut)
    why = verdict(r)
    if why: return why
    if r.signal(): return None
    if r.code() != 0: return "the session ended with %s: %r" % (r.describe(), r.err[-400:])
    if not r.out.endswith("> "): return "the session did not end at a prompt: %r" % r.out[-200:]
    for n, t in want.items():
        got = sut.get(n)
        if got is None: return "after line %r the session did not obey SAVE" % case["lines"][int(n[1:])]
        if got != t: return "after line %r the stored program is %r instead of %r" % (case["lines"][int(n[1:])], got, t)
    return None

def nontrivial(c): return c["strict"] and len(c["lines"]) >= 3 and c["bad"] >= 1
def classes(c): return c["kinds"] + ["probed" if c["strict"] else "not probed"]
