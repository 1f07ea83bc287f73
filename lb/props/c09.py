"""DATA, READ, RESTORE: DATA in every position of a program, read by histories of READ and RESTORE; reference interpreter."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=50000, thorough=400000)
RULE = "at least 4 items in two or more lines with DATA and at least 3 READ statements executed"

class G:
    def __init__(self, ch):
        self.ch = ch; self.items = []; self.reads = 0; self.ndata = 0
    def item(self):
        ch = self.ch
        k = ch.weighted([(6, "num"), (3, "q"), (4, "u"), (1, "odd")])
        if k == "num":
            t = ch.pick(["", "", "-", "+"]) + numlit(ch)
            r = (t, t)
        elif k == "q":
            s = strtext(ch, 14)
            if ch.chance(25): s = ch.pick([" ", "  x  ", ",", "a,b:c", ":", "REM x", "12", " 12 ", "12,13", "a\tb", ""])
            r = ('"%s"' % s, s)
        elif k == "u":
            s = "".join(c for c in strtext(ch, 14) if c not in '",:').strip(" \t")
            if ch.chance(20): s = ch.pick(["a b c", "hello world", "1 2", "x=1", "ELSE", "REM nothing", "print x", "It's", "(1)", "1E", "-", ".", "", "&H10", "0x10", "nan", "inf"])
            if ch.chance(4): s = (s + "y" * 127)[:ch.int(100, 120)]
            r = (s, s)
        else:
            s = ch.pick(["", "12 34", "- 5", "5-", "1e", "1E+2", "1.2.3", "7 ", "..", "+", "--3", "5,"[:1]])
            r = (s, s.strip())
        # blanks around the item do not count
        raw, val = r
        if ch.chance(35): raw = " " * ch.int(1, 3) + raw
        if ch.chance(25): raw = raw + ch.pick([" ", "   ", "\t"])
        return (raw, val)
    def data(self):
        its = [self.item() for _ in range(self.ch.size(1, 7))]
        self.items += its
        self.ndata += 1
        return ("data", its)

def gen(ch):
    g_ = G(ch)
    n = ch.size(3, 22)
    plan = []
    # first the DATA statements, on lines of their own or inside others
    for i in range(n):
        k = ch.weighted([(4, "data"), (9, "read"), (3, "restore"), (2, "mixed"), (1, "if"), (1, "skip"), (1, "loop"), (1, "clear"), (1, "sub")])
        plan.append(k)
    if "data" not in plan: plan[ch.upto(len(plan) - 1)] = "data"
    nums = numbering(ch, n + 3)
    dl = nums[:]
    lines = []
    strs = ["S$", "T$", "A$(1)", "A$(2)", ch.pick(["A$(2)", "B$(1,2)", "C$(0,1,3)"])]
    nms = ["X", "Y", "A(1)", "A(2)", "I", ch.pick(["A(2)", "B(1,2)", "C(0,1,3)"])]
    def lv(t):
        if t.endswith(")"):
            b, i = t[:-1].split("(")
            if "," in i: return idx(b, *[num(int(x)) for x in i.split(",")])
            return idx(b, num(i) if ch.chance(70) else var("Z1") if i == "0" else op("+", num(int(i) - 1), num(1)))
        return var(t)
    dataitems = {}
    for i, k in enumerate(plan):
        if k in ("data", "mixed", "if", "skip", "loop"): dataitems[i] = g_.data()
    tail = None
    if ch.chance(40): tail = g_.data(); dataitems[n + 2] = tail
    flat = [v for i in sorted(dataitems) for _, v in dataitems[i][1]]
    pos = [0]
    def isnum(t): return parse_ok(t)
    def parse_ok(t):
        from ..lang import convert
        c = convert(t)
        return c is not None and c[1] == ""
    def read(k=None):
        g_.reads += 1
        out = []
        for _ in range(k or ch.size(1, 4)):
            nxt = flat[pos[0]] if pos[0] < len(flat) else None
            s = True
            if nxt is not None and parse_ok(nxt) and ch.chance(60): s = False
            if ch.chance(1): s = not s
            if nxt is None and ch.chance(80) and out: break
            out.append(lv(ch.pick(strs if s else nms)))
            pos[0] += 1
        return ("read", out)
    def show():
        return ("print", [x for v in ["S$", "X", "T$", "Y"] + (ch.pick([strs, nms])[-1:] if ch.chance(40) else []) for x in (("e", ("str", "<")), (";",), ("e", lv(v)), (";",), ("e", ("str", ">")), (";",))][:-1], False)
    def start_of(i):
        """first item on or after line i"""
        return sum(len(dataitems[j][1]) for j in dataitems if j < i)
    elems = False
    for i, k in enumerate(plan):
        nn = nums[i]
        if k == "data": ss = ([show()] if ch.chance(20) else []) + [dataitems[i]] + ([show()] if ch.chance(20) else [])
        elif k == "read": ss = [read(), show()]
        elif k == "restore":
            if ch.chance(40): ss = [("restore", None)]; pos[0] = 0
            elif ch.chance(6): ss = [("restore", ch.int(1, 65535))]
            else:
                j = ch.upto(len(plan) - 1)
                ss = [("restore", nums[j])]
                pos[0] = start_of(j)
            if ch.chance(50): ss += [read(), show()]
        elif k == "mixed": # DATA between other statements
            ss = [read(1), dataitems[i], show()]
            if ch.chance(40):
                # after any kind of statement
                ss[1:1] = ch.pick([[("let", var("Q"), num(1), False)], [("for", "Q", num(1), num(1), None)], [("for", "Q", num(1), num(1), None), ("next", ("Q",))], [("let", var("Q$"), ("str", "x"), False)], [("let", idx("Q", num(1)), num(2), False)],
                                   [("def", "FNQ", "Q", var("Q"))], [("on", num(0), "GOTO", [nums[i]])], [("on", num(2), "GOSUB", [nums[i]])], [("dim", [("Q", [num(3)])])], [("print", [("e", num(1))], False)], [("print", [("tab", num(3)), (";",)], False)], [("randomize", num(1))]])
        elif k == "if":
            # the DATA is in a part not executed
            c = num(ch.int(0, 1))
            # an unquoted item before ELSE would run on into it
            its = dataitems[i][1]
            if ch.chance(60) and '"' not in its[-1][1]: its[-1] = ('"%s"' % its[-1][1], its[-1][1])
            t = ("print", [("e", ("str", "T")), (";",)], False)
            if its[-1][0][-1:] == '"' and ch.chance(70): ss = [("if", c, ("stmts", ch.pick([[t, dataitems[i]], [dataitems[i], t], [dataitems[i]]])), ("stmts", [("print", [("e", ("str", "E")), (";",)], False)]))]
            else: ss = [("if", c, ("stmts", [("print", [("e", ("str", "T")), (";",)], False)]), ("stmts", [dataitems[i], ("print", [("e", ("str", "E")), (";",)], False)]) if ch.chance(70) else None)]
        elif k == "skip":
            ss = [("goto", nums[i + 1]), dataitems[i]]
        elif k == "loop":
            # the DATA statement is executed several times: it does nothing
            ss = [("for", "Q", num(1), num(3), None), dataitems[i], ("next", ()), show()]
        elif k == "clear":
            ss = [("clear",), show()] if ch.chance(50) else [read()]
        else: ss = [("gosub", nums[n])]
        lines.append((nn, ss))
    lines.append((nums[n], [("goto", nums[n + 1])] if "sub" not in plan else [show()]))
    # the subroutine reads one item as text
    lines[-1] = (nums[n], [("if", op("=", var("G"), num(99)), ("stmts", [("return",)]), ("stmts", [("let", var("G"), op("+", var("G"), num(0)), False)]))])
    fin = [("print", [x for t in ["A(1)", "A(2)", "A$(1)", "A$(2)", strs[-1], nms[-1]] for x in (("e", lv(t)), (";",))], False), ("end",)]
    lines.append((nums[n + 1], fin))
    if "sub" in plan:
        # calls end before the subroutine
        lines[-2], lines[-1] = (nums[n], [("read", [var("U$")]), ("print", [("e", var("U$"))], False), ("return",)]), (nums[n + 1], fin)
        for q, (a, ss) in enumerate(lines): pass
        # fall through to the end first
        lines.insert(n, (nums[n] , fin))
        lines = lines[:n + 1] + [(nums[n + 1], [("read", [var("U$")]), ("print", [("e", var("U$"))], False), ("return",)])]
        lines = [(a, [("gosub", nums[n + 1]) if s[0] == "gosub" else s for s in ss]) for a, ss in lines]
    if tail: lines.append((nums[n + 2], ([show()] if ch.chance(30) else []) + [tail]))
    style = ch if ch.chance(25) else None
    if ch.chance(75):
        run, vm = run_lines(lines, style, max_steps=4000, ctx=ch)
    else:
        s = Session(max_steps=4000)
        for a, t in program_text(lines, style): s.line(a, t)
        for _ in range(ch.int(1, 3)):
            s.run()
            # immediate READs continue in the program's DATA, or in DATA of their own line
            for _ in range(ch.size(0, 3)):
                k = ch.upto(6)
                if k >= 5:
                    ss = []
                    for _ in range(ch.int(1, 5)):
                        j = ch.upto(4)
                        if j == 0: ss.append(("data", [g_.item() for _ in range(ch.int(1, 3))]))
                        elif j == 1: ss.append(("restore", None))
                        elif j == 2: ss.append(("restore", nums[ch.upto(n - 1)]))
                        else: ss += [("read", [var("S$")]), ("print", [("e", var("S$")), (";",)], False)]
                    if len(text_of(ss)) <= 120: s.stmts(ss)
                elif k == 0: s.stmts([("read", [var("S$")]), ("print", [("e", var("S$"))], False)])
                elif k == 1: s.stmts([("restore", None), ("read", [var("S$")]), ("print", [("e", var("S$"))], False)])
                elif k == 2:
                    its = [g_.item() for _ in range(ch.int(1, 3))]
                    s.stmts([("read", [var("T$")]), ("print", [("e", var("T$"))], False), ("data", its)])
                elif k == 3: s.stmts([("restore", nums[ch.upto(n - 1)]), ("read", [var("S$")]), ("print", [("e", var("S$"))], False)])
                else: s.stmts([("print", [("e", var("S$"))], False)])
        run = s.finish(); vm = s.vm
    return dict(runs=[run], items=len(flat), nd=g_.ndata, reads=g_.reads, err=len(run["errors"]), out="outofdata" in vm.features, plan=sorted(set(plan)))

def nontrivial(c): return c["items"] >= 4 and c["nd"] >= 2 and c["reads"] >= 3
def classes(c): return c["plan"] + ["error" if c["err"] else "no error"] + (["past the end"] if c["out"] else [])
