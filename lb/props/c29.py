"""What reaches the operating system: lines beginning with an asterisk, verbatim, and the clearing of the screen, in order and after
everything printed before; nothing else that is typed, stored, replied or printed. system() is a recorder."""
from .common import *
from ..judge import compare

VARIANTS = ["plain"]
CASES = dict(quick=26000, thorough=300000)
RULE = "at least one command reached the operating system, and at least one other line held an asterisk or CLS was executed after text on the same print line"
WORDS = ["DIR", "dir *.BAS", "ls -l", "echo a;b", "rm x", "BYE", "10 PRINT 1", "PRINT 1", '"quoted"', "*", "**", "REM", "a  b", "x:y", "LOAD \"p.bas\"", "-", "cat <p.bas", "%s%d%n", "a\\b", "$HOME", "`x`", "CLS", "0", "NEW", "\x01"]
ANY = "".join(chr(c) for c in range(32, 127)) + "\t\x7f\x80\xe9\xff\x01\r"

def command(ch):
    k = ch.upto(4)
    if k <= 1: c = ch.pick(WORDS)
    elif k == 2: c = "".join(ch.pick(ANY) for _ in range(ch.size(0, 20)))
    elif k == 3: c = ch.pick(["x", "ab ", "% "]) * ch.int(1, 40)
    else: c = ch.pick(WORDS) + ch.pick([" ", "  ", "\t", ""]) + ch.pick(WORDS)
    return ch.pick(["", "", "", " ", "\t", "   "]) + "*" + ch.pick(["", "", "", " ", "\t "]) + c + ch.pick(["", "", "", " ", "  \t"])

def gen(ch):
    stars = [0]
    def rep():
        if ch.chance(25):
            stars[0] += 1
            if ch.chance(25): return ch.pick(["x", "1", "* "]) * ch.int(125, 130) + ch.pick(["*rm x", "* ls", "x*y"])
            if ch.chance(30): return ("*" * ch.int(0, 3) + command(ch))[:126]
            return ch.pick(["*rm x", "*", "* ls", "1,*x", '"*"', "*,*"])
        return reply(ch)
    s = Session(replies=rep, max_steps=2500)
    s.vm.sysret = ch.pick([1, 0, 0, 127 << 8, -1, 256, 2])
    b = Builder(ch, items=ch.pick([1, 3]), input=ch.chance(40), cls=True, stop=ch.chance(30), risk=2).build()
    lines = b.resolve()
    for _ in range(ch.int(0, 3)):
        i = ch.upto(len(lines) - 1)
        if lines[i][1] and lines[i][1][-1][0] not in ("if", "rem", "data", "return", "goto", "end"):
            lines[i] = (lines[i][0], lines[i][1] + ([("print", [("e", ("str", "same line")), ch.pick([(";",), (",",)])], False)] if ch.chance(60) else []) + [("cls",)])
    tl = program_text(lines)
    if ch.chance(20):
        # an asterisk is no statement
        stars[0] += 1
        have = [n for n, _ in tl]
        n = ch.pick(have) + 1
        if n not in have: tl = sorted(tl + [(n, ch.pick(["REM *ls", 'PRINT "*ls"', "REM\t* x", "*DIR", "X=1:*DIR", "DATA *ls", "* x"]))])
    if any(len("%d %s" % l) > 120 for l in tl): raise Discard("long")
    files = {}
    def enter():
        if ch.chance(60): files["p.bas"] = file_text(tl); s.load("p.bas", tl)
        else:
            for l in tl: s.line(*l)
    if ch.chance(70): enter()
    for _ in range(ch.size(2, 14)):
        if s.ended: break
        k = ch.weighted([(8, "os"), (3, "run"), (3, "imm"), (2, "cls"), (1, "cont"), (1, "bad"), (1, "list"), (1, "page"), (1, "line"), (1, "save"), (1, "load"), (1, "compile"), (1, "new"), (1, "blank"), (1, "toolong")])
        if k == "os": s.os(command(ch))
        elif k == "run": s.run(ch.pick(["RUN", "run"]))
        elif k == "imm":
            t = text_of(b.simples(2))
            if len(t) < 120 and re.match("[A-Za-z]*", t).group().upper() not in COMMANDS: s.imm(t)
        elif k == "cls":
            t = ch.pick(["CLS", "cls", 'PRINT "x";:CLS', 'CLS:PRINT "y"', 'PRINT "a":CLS:CLS:PRINT "b",', "FOR I=1 TO 2:PRINT I;:CLS:NEXT", "IF 1 THEN CLS ELSE CLS", "IF 0 THEN CLS"])
            s.imm(t)
        elif k == "cont": s.cont()
        elif k == "bad":
            stars[0] += 1
            if ch.chance(50):
                # any other mark in front
                t = ch.pick("!\"#$%&'()+,-./:;<=>?@[\\]^_`{|}~\x7f\xaa") + ch.pick(["", "", " ", "  ", "*", " *"]) + ch.pick(["", ch.pick(WORDS), "echo " + "x" * ch.int(1, 60), "".join(ch.pick(ANY) for _ in range(ch.size(1, 40)))])
                s.imm(t.replace("\r", ""))
                continue
            s.imm(ch.pick(['PRINT "*ls";*', "X=1:*ls", "REM *ls", 'PRINT "*ls"', "CLS *", "PRINT 2*3", ":*ls", "'*ls", "!ls", "? *ls"]))
        elif k == "list": s.list()
        elif k == "page":
            s.type("LIST P")
            src = sorted(s.stored.items())
            for i, (n, t) in enumerate(src):
                s.vm.put("%d %s" % (n, t))
                if (i + 1) % 24 == 23 and i + 1 < len(src): s.stdin.append(ch.pick(["*rm x\n", "\n", "* y\n"])); stars[0] += 1
                else: s.vm.put("\n")
        elif k == "line":
            stars[0] += 1
            n = ch.pick([1, 5, 10, 20, 60000]) + ch.upto(9)
            t = ch.pick(["*ls", "REM *rm x", 'PRINT "* x"', ":*ls", ": *ls", ":", ";*ls", "?*", "REM:*ls", "**", "PRINT 1:*ls", "X*2"]) if ch.chance(75) else "REM"
            s.line(n, t, ch.pick([None, "%s%d%s" % (ch.pick(["", " ", "\t", "  "]), n, t)]))
        elif k == "save": s.save("q.bas")
        elif k == "load" and ch.chance(50): enter()
        elif k == "compile": s.compile()
        elif k == "new" and ch.chance(30): s.new()
        elif k == "toolong":
            stars[0] += 1
            s.overlong((ch.pick(["", "*", "10 ", "PRINT "]) + ch.pick(["x", "*", "1 "]) * 300)[:ch.pick([127, 128, 254, 255, ch.int(127, 290)])] + ch.pick(["*rm x", "*", "* y"]))
        elif k == "blank": s.type(ch.pick(["", " ", "\t"]))
    if s.ended: raise Discard("end of input")
    s.imm("PRINT 1")
    run = s.finish(files=files)
    run.pop("saved", None)
    run["sysret"] = s.vm.sysret
    return dict(run=run, system=s.vm.system, stars=stars[0], ncls=sum(c == "clear" for _, c in s.vm.system))

def judge(case, sut):
    run = case["run"]
    r = perform(run, sut)
    why = compare(run, r)
    if why: return why
    want = case["system"]
    got = []
    text = r.sys
    for at, c in want:
        # commands may hold any character but a line feed
        m = re.match(r"(-?\d+) ([^\n]*)\n", text)
        if not m: return "the command %r was not passed to the operating system: it was passed %r" % (c, r.sys)
        if m.group(2) != c: return "the command passed to the operating system was %r instead of %r" % (m.group(2), c)
        got.append(int(m.group(1)))
        text = text[m.end():]
    if text: return "passed to the operating system as well: %r" % text
    if "-- overflow" not in r.out:
        for (at, c), g in zip(want, got):
            if at != g: return "when %r was passed to the operating system, %d characters of standard output had been written instead of %d: %r" % (c, g, at, r.out[:at][-60:])
    return None

import re
def nontrivial(c): return len(c["system"]) >= 1 and (c["stars"] or c["ncls"])
def classes(c): return ["commands %d" % min(len(c["system"]) - c["ncls"], 5), "cls %d" % min(c["ncls"], 3), "other asterisks" if c["stars"] else "none"]
