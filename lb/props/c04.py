"""IF: lines of nested and chained IFs with markers, run by the reference interpreter."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=60000, thorough=250000)
RULE = "the program has at least two IF lines, with an ELSE or a nested IF, and both a true and a false condition were evaluated"

class G:
    def __init__(self, ch):
        self.ch = ch; self.n = 0; self.labels = 0; self.ifs = 0; self.nested = 0; self.elses = 0
        self.fors = 0
    def mark(self):
        self.n += 1
        k = self.ch.weighted([(6, 0), (2, 1), (1, 2), (1, 3), (1, 4)])
        t = "m%d" % self.n
        if k == 0: return ("print", [("e", ("str", t)), (";",)], self.ch.chance(20))
        if k == 1: return ("let", var("T$"), op("+", var("T$"), ("str", "+" + t)), self.ch.chance(20))
        if k == 2: return ("print", [("e", ("str", t + " ELSE 10:REM ")), (";",)], False)
        if k == 3: return ("let", var("C"), op("+", var("C"), num(1)), False)
        return ("print", [("e", ("str", t)), (",",)], False)
    def cond(self):
        ch = self.ch
        k = ch.upto(8)
        if k == 0 and ch.chance(45): # any number but zero is true
            e = num(numlit(ch))
            return ("neg", e) if ch.chance(50) else e
        if k < 3: return num(ch.pick(["0", "1", "0", "2", ".5", "0.0", "1E-300"]))
        if k == 3: return var(ch.pick(["A", "B", "Z"]))
        if k == 4: return op(ch.pick(REL), var(ch.pick(["A", "B", "C"])), num(ch.int(0, 3)))
        if k == 5: return op(ch.pick(REL), var("T$"), ("str", ch.pick(["", "x", "m"])))
        if k == 6: return op(ch.pick(["AND", "OR"]), op("=", var("A"), num(ch.int(0, 2))), op("<", var("B"), num(ch.int(0, 2))))
        if k == 7: return ("neg", num(ch.int(0, 1)))
        return ("not", op("=", num(ch.int(0, 1)), num(1)))
    def lab(self):
        self.labels -= 1
        return self.labels
    def stmts(self, b):
        ch = self.ch
        r = [self.mark() for _ in range(ch.size(1, 3))]
        if ch.chance(20): r.insert(ch.upto(len(r)), ("gosub", b.sub))
        if ch.chance(10):
            r.insert(0, ("for", "I", num(1), num(ch.int(1, 3)), None)); r.append(("next", () if ch.chance(50) else ("I",)))
            if ch.chance(40): r.append(self.mark())
        if ch.chance(6): r.insert(ch.upto(len(r)), ("on", num(ch.int(0, 2)), "GOSUB", [b.sub, b.sub2]))
        if ch.chance(22):
            for _ in range(ch.size(1, 3)): r.insert(ch.upto(len(r)), self.other())
        return r
    def other(self):
        """every other kind of statement that may stand in a part: its effect is printed at the end"""
        ch = self.ch
        k = ch.upto(9)
        if k == 0: return ("restore", None)
        if k == 1: return ("read", [var("R")])
        if k == 2: return ("dim", [("Q", [num(ch.int(1, 12))])])
        if k == 3: return ("def", "FNQ", ch.pick(["X", "A"]), op("*", var("X"), num(ch.int(1, 9))))
        if k == 4: return ("def", "FNQ$", "X", op("+", ("str", "f%d" % ch.int(0, 9)), fn("STR$", var("X"))))
        if k == 5: return ("let", idx("Q", num(1)), num(ch.int(1, 9)), False)
        if k == 6: return ("cls",)
        if k == 7: return ("randomize", num(ch.int(1, 99)))
        if k == 8: return ("dim", [("Q$", [num(ch.int(0, 3)), num(2)])])
        d = str(ch.int(50, 99))
        return ("data", [('"%s"' % d, d)]) # quoted: anything else before ELSE would be part of the item
    def if_(self, b, d=0, inthen=False):
        ch = self.ch
        self.ifs += 1
        if d: self.nested += 1
        c = self.cond()
        form = ch.upto(5)
        if form == 0:
            l = self.lab(); b.targets.append(l)
            els = None
            if ch.chance(45):
                l2 = self.lab(); b.targets.append(l2); els = ("line", l2); self.elses += 1
            dead = None
            if ch.chance(20): dead = [self.mark() for _ in range(ch.int(1, 2))]
            return ("if", c, ("line", l), els, dead)
        then = self.stmts(b)
        if ch.chance(25):
            l = self.lab(); b.targets.append(l)
            then = then[:ch.upto(len(then))] + [("goto", l)]
        if form == 1: return ("if", c, ("stmts", then), None)
        if form == 2 and d < 3: # IF nested in THEN; any ELSE is its own
            return ("if", c, ("stmts", (then if ch.chance(50) else []) + [self.if_(b, d + 1, True)]), None)
        els = self.stmts(b)
        self.elses += 1
        if form == 3 and d < 4: # ELSE IF
            return ("if", c, ("stmts", then), ("stmts", (els if ch.chance(30) else []) + [self.if_(b, d + 1)]))
        if ch.chance(15):
            l = self.lab(); b.targets.append(l); els = els[:ch.upto(len(els))] + [("goto", l)]
        return ("if", c, ("stmts", then), ("stmts", els))

def gen(ch):
    g_ = G(ch)
    b = Builder(ch)
    b.nlabel = -100000
    b.sub = b.label(); b.sub2 = b.label(); b.targets = []
    b.emit(("let", var("A"), num(ch.int(0, 2)), False), ("let", var("B"), num(ch.int(0, 2)), False))
    b.emit(("def", "FNQ", "X", var("X")), ("def", "FNQ$", "X", ("str", "f")))
    # all of it inside loops, or in a subroutine
    around = ch.int(1, 4) if ch.chance(30) else 0
    for i in range(around): b.emit(("for", "F%d" % i, num(1), num(1 if ch.chance(60) else 2), None))
    called = ch.chance(15)
    if called:
        main, after = b.label(), b.label()
        b.emit(("gosub", main), ("print", [("e", ("str", "back"))], False)); b.emit(("goto", after)); b.here(main)
    for _ in range(ch.int(1, 6)):
        pre = [g_.mark()] if ch.chance(30) else []
        b.emit(*pre, g_.if_(b))
        if ch.chance(50): b.emit(g_.mark())
        # targets come later, in any order, on lines of their own
        if b.targets and ch.chance(70):
            for l in ch.shuffle(b.targets):
                b.here(l); b.emit(("print", [("e", ("str", "t%d" % -l)), (";",)], False), *([g_.mark()] if ch.chance(30) else []))
            b.targets = []
    for l in b.targets: b.here(l)
    if called: b.emit(("return",)); b.here(after)
    for i in reversed(range(around)): b.emit(g_.mark(), ("next", ("F%d" % i,) if ch.chance(60) else ()))
    b.emit(("print", [("e", var("T$")), ("e", var("C"))], False))
    b.emit(("read", [var("Z")]), ("print", [("e", var("R")), ("e", var("Z")), ("e", idx("FNQ", num(3))), ("e", idx("FNQ$", num(3))), ("e", idx("Q", num(1)))], False), ("end",))
    b.emit(("data", [(str(i),) * 2 for i in range(1, 25)]))
    b.here(b.sub)
    if ch.chance(50): b.emit(g_.mark(), ("return",))
    else: b.emit(("if", g_.cond(), ("stmts", [g_.mark(), ("return",)]), ("stmts", [g_.mark(), ("return",)])))
    b.here(b.sub2); b.emit(("let", var("A"), op("+", var("A"), num(1)), False)); b.emit(("return",))
    lines = b.resolve()
    style = ch if ch.chance(40) else None
    seen = set()
    if ch.chance(80):
        run, vm = run_lines(lines, style, max_steps=3000, ctx=ch, p=12)
    else:
        s = Session(max_steps=3000)
        for n, t in program_text(lines, style): s.line(n, t)
        # the same IFs as immediate statements
        for n, ss in lines:
            if ss[-1][0] == "if" and len(text_of(ss)) < 120: s.stmts(ss)
        s.run()
        run = s.finish(); vm = s.vm
    return dict(runs=[run], ifs=g_.ifs, more=g_.nested + g_.elses, seen=sorted(vm.features & {"iftrue", "iffalse"}))

def nontrivial(c): return c["ifs"] >= 2 and c["more"] >= 1 and len(c["seen"]) == 2
def classes(c):
    return ["%d IFs" % min(c["ifs"], 6), "else/nested" if c["more"] else "plain"] + c["seen"]
