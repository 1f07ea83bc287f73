"""PRINT layout: print lists over numbers, strings, commas, semicolons, TAB, SPC, across statements; reference interpreter."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=80000, thorough=500000)
RULE = "at least 4 printed items with at least one comma, TAB or SPC"

def gen(ch):
    st = dict(items=0, ctl=0, long=0)
    def expr():
        k = ch.upto(9)
        st["items"] += 1
        if k <= 2: return num(numlit(ch))
        if k == 3: return ("neg", num(numlit(ch)))
        if k == 4: return op("/", num(ch.int(1, 99)), num(ch.int(1, 13)))
        if k == 5: return fn("STR$", num(numlit(ch)))
        if k == 6 and ch.chance(50):
            # newline within a string, or at its end
            return op("+", op("+", ("str", strtext(ch, 9)), fn("CHR$", num(10))), ("str", strtext(ch, 9) if ch.chance(60) else ""))
        if k == 6 and ch.chance(40):
            # any other character is one column
            return op("+", ("str", strtext(ch, 9)), op("+", fn("CHR$", num(ch.pick([1, 7, 8, 9, 11, 12, 13, 27, 31, 127, 128, 160, 200, 255]))), ("str", strtext(ch, 9))))
        if k == 7: return var(ch.pick(["A", "B", "S$", "T$"]))
        return ("str", strtext(ch, 20))
    def arg(hi):
        k = ch.upto(9)
        if k == 0: return op("*", num(ch.int(0, 9)), num(ch.int(0, 9)))
        if k == 1: return var("A")
        if k == 2 and ch.chance(30): return ch.pick([("neg", num(1)), num("1.5"), num(255), num(256), num(300), num("4294967296"), ("neg", num("0"))])
        return num(ch.int(0, hi))
    def items():
        r = []
        for _ in range(ch.size(0, 7)):
            k = ch.weighted([(7, "e"), (3, "tab"), (2, "spc"), (3, "sep")])
            if k == "e": r.append(("e", expr()))
            elif k == "tab": r.append(("tab", arg(60))); st["ctl"] += 1
            elif k == "spc": r.append(("spc", arg(20))); st["ctl"] += 1
            w = ch.pick([";", ";", ","])
            if w == ",": st["ctl"] += 1
            r.append((w,))
        if r and ch.chance(50): r.pop()
        return r
    lines = [(1, [("let", var("A"), num(ch.int(0, 40)), False), ("let", var("B"), ("neg", num(numlit(ch))), False)]),
             (2, [("let", var("S$"), ("str", strtext(ch, 30)), False)])]
    if ch.chance(15):
        st["long"] = 1
        lines.append((3, [("for", "I", num(1), num(ch.int(1, 8)), None), ("let", var("T$"), op("+", var("T$"), ("str", "x" * ch.int(1, 30))), False), ("next", ())]))
    n = 4
    for _ in range(ch.size(2, 9)):
        k = ch.upto(7)
        p = ("print", items(), ch.chance(20))
        if k == 0: ss = [p, ("print", items(), False), ("print", items(), False)]
        elif k == 1: ss = [("for", "I", num(1), num(ch.int(1, 6)), None), p, ("next", ())]
        elif k == 2: ss = [("if", num(ch.int(0, 1)), ("stmts", [p]), ("stmts", [("print", items(), False)]))]
        elif k == 3 and ch.chance(20): ss = [p, ("cls",), ("print", items(), False)]
        elif k == 4: ss = [p, ("let", var("A"), num(ch.int(0, 50)), False)]
        else: ss = [p]
        lines.append((n, ss)); n += 1
    lines = [(10 * i, ss) for i, (_, ss) in enumerate(lines, 1)]
    style = ch if ch.chance(25) else None
    if ch.chance(80):
        run, vm = run_lines(lines, style, max_steps=2000, ctx=ch)
    elif ch.chance(35):
        # a program in the session, left in the middle of a line, and PRINT typed after it
        s = Session(max_steps=2000)
        cut = ch.int(1, len(lines))
        prog = [(n, ss) for n, ss in lines[:cut]]
        prog.append((3000, [("print", items(), False), ch.pick([("end",), ("stop",), ("goto", 9999), ("print", [("e", fn("LOG", num(0)))], False), ("print", [(";",)], False)])]))
        if ch.chance(40):
            prog = [(n, ss) for n, ss in prog[:1]] + [(12, [("gosub", 14)]), (13, [("print", items(), False), ("end",)]), (14, [("rem", "")])] + prog[1:]
            if ch.chance(50): prog.append((3001, [("return",)]))
        prog = context(ch, prog, 30)
        for n, t in program_text(prog, style): s.line(n, t)
        s.run()
        for _, ss in lines[cut:]:
            if ch.chance(20): s.cont()
            if ch.chance(10): s.list(10, 20)
            s.stmts(ss)
        s.stmts([("print", items(), False)])
        run = s.finish(); vm = s.vm
    else:
        s = Session(max_steps=2000)
        for _, ss in lines: s.stmts(ss)
        run = s.finish(); vm = s.vm
    return dict(runs=[run], err=len(run["errors"]), **st)

def nontrivial(c): return c["items"] >= 4 and c["ctl"] >= 1
def classes(c): return ["items %d+" % (c["items"] // 8 * 8), "error" if c["err"] else "no error", "long" if c["long"] else "short"]
