"""DEF functions: programs and sessions of definitions, redefinitions, calls, failing calls; every variable observed."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=45000, thorough=400000)
RULE = "at least one DEF, two calls, and the variable named like the parameter observed after a call"

NUMS = ["X", "Y", "A", "N1"]
STRS = ["S$", "T$"]

class G:
    def __init__(self, ch):
        self.ch = ch
        self.env = Env(nums=NUMS, strs=STRS, arrs={"Q": (10,), "Q$": (10,)})
        self.env.risk = 5
        self.fns = ch.shuffle(["FNA", "FNB", "DOUBLE", "F$", "REPEAT$", "G"])[:ch.int(1, 3)]
        self.defined = []
        self.calls = 0; self.ndef = 0
    def body(self, name, p):
        ch = self.ch
        k = ch.upto(11)
        s = is_str(name)
        self.env.fns = []
        self.env.infn = p
        try:
            if k == 0: # fails for some arguments
                if s: return ch.pick([fn("CHR$", var(p)), fn("LEFT$", var("S$"), var(p)), fn("MID$", ("str", "abcdef"), var(p), num(2))])
                return ch.pick([fn("LOG", var(p)), idx("Q", var(p)), op("AND", var(p), num(7)), fn("VAL", op("+", var("S$"), fn("STR$", var(p)))), fn("ASC", fn("CHR$", var(p)))])
            if ch.chance(8): # long
                parts = [ch.pick([var(p), var(ch.pick(NUMS)), num(ch.int(0, 9)), ("par", op("*", var(p), num(ch.int(0, 3))))]) for _ in range(ch.int(6, 40))]
                if s: parts = [ch.pick([("str", "ab"), var("S$"), fn("STR$", x)]) for x in parts]
                e = parts[0]
                for x in parts[1:]: e = op("+" if s else ch.pick(["+", "-"]), e, x)
                return fn("RIGHT$", e, num(9)) if s else e
            if k == 1: # calls a function: an error when called
                f = ch.pick(self.fns)
                e = idx(f, var(p))
                if is_str(f) != s: e = fn("STR$", e) if s else fn("LEN", e)
                return op("+", ("str", "n") if s else num(1), e)
            if k <= 4: # depends on other variables
                o = ch.pick([v for v in NUMS if v != p])
                e = op(ch.pick(["+", "*", "-"]), var(p), var(o))
                return op("+", fn("STR$", e), var(ch.pick(STRS))) if s else e
            return sexpr(ch, self.env, 3) if s else nexpr(ch, self.env, 3)
        finally: self.env.infn = None
    def def_(self):
        ch = self.ch
        n = ch.pick(self.fns)
        p = ch.pick(NUMS + ["P9"])
        self.ndef += 1
        if n not in self.defined: self.defined.append(n)
        return ("def", n, p, self.body(n, p))
    def arg(self):
        ch = self.ch
        k = ch.upto(7)
        if k == 0: return ("neg", num(ch.int(1, 5)))
        if k == 1: return num(ch.pick(["0", "1.5", "300", "2.25", "0.1", ".3", "1E-9", "16777217", "123456.789"])) if ch.chance(60) else num(".%d" % ch.int(1, 99999))
        if k == 2: return op("+", var(ch.pick(NUMS)), num(ch.int(0, 4)))
        if k == 3: return nexpr(ch, Env(nums=NUMS, strs=STRS), 1)
        if k == 4: return var(ch.pick(NUMS))
        return num(ch.int(0, 9))
    def call(self):
        ch = self.ch
        f = ch.pick(self.defined or self.fns) if ch.chance(94) else ch.pick(self.fns)
        self.calls += 1
        if ch.chance(3): return f, idx(f, self.arg(), self.arg())
        if ch.chance(3):
            h = ch.pick(self.fns)
            if not is_str(h): return f, idx(f, idx(h, self.arg()))
        return f, idx(f, self.arg())
    def numcall(self):
        f, e = self.call()
        return self.deep(fn("LEN", e) if is_str(f) else e)
    def strcall(self):
        f, e = self.call()
        if not is_str(f): return fn("STR$", self.deep(e))
        if self.ch.chance(15):
            for i in range(self.ch.int(1, 9)): e = op("+", ("str", "%d" % i), ("par", e))
        return e
    def deep(self, e):
        """the value needed while others are kept"""
        ch = self.ch
        if not ch.chance(30): return e
        x = e
        if ch.chance(50): # kept exactly
            for i in range(ch.int(1, 14)): x = op("+", num(0), ("par", x))
            return ch.pick([x, op("-", x, e), op("=", x, e)])
        for i in range(ch.int(1, 10)):
            k = ch.upto(3)
            x = op("+", num(ch.int(0, 3)), ("par", x)) if k < 2 else op("-", num("%d.5" % ch.int(0, 3)), ("par", x)) if k == 2 else op("*", var(ch.pick(NUMS)), ("par", x))
        return x if ch.chance(50) else op(ch.pick(["=", "-"]), x, e) if ch.chance(50) else op("+", x, op("=", e, e))
    def show(self):
        ch = self.ch
        if ch.chance(40): # the numbers in full
            return ("print", [x for v in ch.shuffle(NUMS + ["P9"])[:2] for x in (("e", op("-", op("*", var(v), num(10000)), fn("INT", op("*", var(v), num(10000))))), (";",))] + [x for v in STRS for x in (("e", var(v)), (";",))], False)
        return ("print", [x for v in NUMS + STRS + ["P9"] for x in (("e", var(v)), (";",))], False)
    def use(self):
        ch = self.ch
        k = ch.upto(9)
        if k == 0: return [("let", var(ch.pick(NUMS)), op("+", self.numcall(), var(ch.pick(NUMS))), False)]
        if k == 1: return [("let", var(ch.pick(STRS)), fn("LEFT$", self.strcall(), num(20)), False)]
        if k == 2: return [("if", op(ch.pick(REL), self.numcall(), num(ch.int(0, 9))), ("stmts", [("print", [("e", ("str", "yes"))], False)]), ("stmts", [("print", [("e", ("str", "no"))], False)]))]
        if k == 3: return [("print", [("e", op("*", op("+", num(2), self.numcall()), op("-", self.numcall(), num(1))))], False)]
        if k == 4: return [("let", idx("Q", num(ch.int(0, 3))), self.numcall(), False), ("print", [("e", idx("Q", num(ch.int(0, 3))))], False)]
        if k == 5:
            d = ch.int(1, 3) if ch.chance(40) else 1
            return [("for", "K%d" % i, num(1), num(3 if i == d else 1), None) for i in range(1, d + 1)] + [("print", [("e", idx(ch.pick(self.fns), var("K%d" % d))), (";",)], False)] + [("next", ())] * d + [self.show()]
        if k == 6: return [("print", [("e", op("+", op("+", ("str", "<"), self.strcall()), ("str", ">")))], False)]
        if k == 7: return [("on", self.numcall(), "GOTO", [99999][:0] or [1])] if False else [("print", [("tab", num(3)), (";",), ("e", self.numcall())], False)]
        f, e = self.call()
        return [("print", [("e", e), (";",), ("e", var(ch.pick(NUMS)))], False)]
    def assign(self):
        ch = self.ch
        if ch.chance(30): return [("let", var(ch.pick(STRS)), ("str", strtext(ch, 6)), False)]
        return [("let", var(ch.pick(NUMS)), num(ch.int(0, 50)) if ch.chance(60) else num("%d.%d" % (ch.int(0, 300), ch.int(1, 99999999))), False)]

def gen(ch):
    g_ = G(ch)
    sess = ch.chance(60)
    prog = []
    for i in range(ch.size(2, 10)):
        k = ch.weighted([(3, "def"), (3, "use"), (2, "assign"), (1, "show")])
        if i == 0: k = "def"
        ss = [g_.def_()] if k == "def" else g_.use() if k == "use" else g_.assign() if k == "assign" else [g_.show()]
        prog.append((10 * (i + 1), ss))
    if ch.chance(25) and not sess:
        # the same inside loops over the variables, of which one may be the parameter
        vs = ch.shuffle(NUMS)[:ch.int(1, 4)]
        k = ch.int(1, len(prog) - 1)
        body = prog[k:] + [(0, [("print", [x for v in vs for x in (("e", op("=", var(v), fn("INT", var(v)))), (";",), ("e", op("-", var(v), num(1))), (";",))], False)])]
        prog = prog[:k] + [(0, [("for", v, num(1), num(ch.int(1, 2) if len(vs) < 3 else 1), None) for v in vs])] + body + [(0, [("next", ()) for v in vs])]
        prog = [(10 * (i + 1), ss) for i, (_, ss) in enumerate(prog)]
    prog.append((500, [g_.show(), ("end",)]))
    prog.append((600, [("gosub", 700), ("end",)]))
    prog.append((700, g_.use() if ch.chance(50) else [g_.show()]))
    prog[-1][1].append(("return",)) if prog[-1][1][-1][0] != "if" else None
    if not sess:
        run, vm = run_lines(prog, ch if ch.chance(20) else None, max_steps=3000, ctx=ch, p=30)
    else:
        s = Session(max_steps=3000)
        if ch.chance(80):
            for n, t in program_text(prog): s.line(n, t)
            s.run()
        for _ in range(ch.size(2, 14)):
            k = ch.weighted([(2, "def"), (6, "use"), (2, "assign"), (3, "show"), (1, "gosub"), (1, "clear"), (1, "run")])
            if k == "def": s.stmts([g_.def_()])
            elif k == "use": s.stmts(g_.use())
            elif k == "assign": s.stmts(g_.assign())
            elif k == "show": s.stmts([g_.show()])
            elif k == "gosub": s.stmts([("gosub", 700)])
            elif k == "clear": s.stmts([("clear",)]) if ch.chance(20) else s.stmts([g_.show()])
            else: s.run()
        s.stmts([g_.show()])
        run = s.finish(); vm = s.vm
    return dict(runs=[run], defs=g_.ndef, calls=g_.calls, err=len(run["errors"]), sess=sess)

def nontrivial(c): return c["defs"] >= 1 and c["calls"] >= 2
def classes(c): return ["session" if c["sess"] else "program", "errors %d" % min(c["err"], 3), "calls %d+" % (c["calls"] // 4 * 4)]
