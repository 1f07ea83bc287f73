"""String functions and comparisons: reference evaluator over strings of 0..255 characters and boundary arguments."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=60000, thorough=300000)
RULE = "at least 3 string operations of which one has an operand over 8 characters or an argument on a boundary"

LENS = [0, 1, 2, 3, 7, 8, 126, 127, 128, 200, 253, 254, 255]
ALL = "".join(chr(c) for c in range(32, 127) if chr(c) != '"')

def build(ch, name, n):
    """statements giving the string variable n characters"""
    unit = "".join(ALL[ch.upto(len(ALL) - 1)] for _ in range(min(n, ch.pick([1, 7, 40]))))
    if n == 0: return [[("let", var(name), ("str", ""), False)]]
    unit = unit or "x"
    r = [[("let", var(name), ("str", unit), False)]]
    k = len(unit)
    while k < n:
        add = min(k, n - k)
        e = var(name) if add == k else fn("LEFT$", var(name), num(add))
        r.append([("let", var(name), op("+", var(name), e), False)])
        k += add
    return r

def arg(ch, L):
    """boundary arguments for a string of length L"""
    k = ch.upto(12)
    base = [0, 1, 2, L - 1, L, L + 1, 254, 255, 256, 65535, 65536, 4294967295]
    if k == 12 and ch.chance(60): return num(magicnum(ch))
    if k == 12: return num(ch.pick([7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 199, 200, 253]))
    if k < 9:
        n = ch.pick(base)
        return num(max(0, n)) if n >= 0 else ("neg", num(-n))
    if k == 9: return ("neg", num(ch.pick(["1", ".5", "255"])))
    if k == 10: return num(ch.pick(["1.5", ".5", "2.25", "4294967296", "1E10", ".999"]))
    return num(ch.int(0, max(1, L)))

class S:
    def __init__(self, ch):
        self.ch = ch
        self.len = {}
        self.big = 0

    def operand(self, d=1):
        """(expression, approximate length)"""
        ch = self.ch
        k = ch.upto(7)
        if k < 4 or d == 0:
            n = ch.pick(sorted(self.len))
            return var(n), self.len[n]
        if k == 4:
            t = strtext(ch, 20)
            return ("str", t), len(t)
        if k == 5:
            e, L = self.operand(d - 1)
            n = ch.int(0, max(L, 1))
            return fn(ch.pick(["LEFT$", "RIGHT$"]), e, num(n)), min(n, L)
        if k == 6:
            a, la = self.operand(d - 1); b, lb = self.operand(d - 1)
            return op("+", a, b), la + lb
        c = ch.pick([1, 31, 32, 65, 97, 126, 127, 128, 160, 200, 254, 255, 9, 10, 13])
        return fn("CHR$", num(c)), 1

    def test(self):
        ch = self.ch
        k = ch.weighted([(4, "left"), (4, "right"), (5, "mid"), (2, "len"), (3, "asc"), (3, "chr"), (4, "cmp"), (4, "cat"), (1, "copy"), (1, "time"), (1, "element"), (3, "str"), (1, "val")])
        e, L = self.operand()
        if L > 8: self.big += 1
        if k in ("left", "right"): x = fn(k.upper() + "$", e, arg(ch, L))
        elif k == "mid":
            if ch.chance(40): # a part that ends just before, at or beyond the end of the string
                u = ch.pick([1, 2, L, max(1, L - 1), L + 1, ch.int(1, max(1, L)), ch.int(1, max(1, L))])
                x = fn("MID$", e, num(u), num(max(0, L - u + 1 + ch.pick([-1, 0, 1, 2]))))
            else: x = fn("MID$", e, arg(ch, L), arg(ch, L))
        elif k == "len": x = fn("LEN", e)
        elif k == "asc": x = fn("ASC", e)
        elif k == "chr":
            c = num(ch.int(0, 255)) if ch.chance(70) else arg(ch, 255)
            x = fn(ch.pick(["ASC", "LEN"]), fn("CHR$", c)) if ch.chance(60) else op("+", ("str", "<"), fn("CHR$", c))
        elif k == "cmp":
            f, M = self.operand()
            if ch.chance(40): # nearly equal strings
                r = ch.upto(3)
                f = op("+", e, ("str", ch.pick(["", " ", "a", "~"]))) if r < 2 else fn("LEFT$", e, num(max(0, L - 1))) if r == 2 else e
            x = op(ch.pick(REL), e, f)
        elif k == "cat":
            f, M = self.operand()
            x = fn("LEN", op("+", e, f)) if ch.chance(60) else op("+", e, f)
        elif k == "copy":
            n = ch.pick(sorted(self.len)); self.len[n] = L
            return [("let", var(n), e, False)]
        elif k == "str":
            z = num("%s%s%s" % (ch.pick(["", "0."]), ch.int(0, ch.pick([9, 999, 999999, 9999999])), ch.pick(["", "", "E%d" % ch.int(0, 30), "E-%d" % ch.int(0, 300), "E%d" % ch.int(0, 300)])))
            if ch.chance(45): z = ("neg", z)
            if ch.chance(25): z = op("/", z, num(ch.int(1, 999)))
            x = fn("STR$", z)
            if ch.chance(50): x = fn(ch.pick(["LEFT$", "RIGHT$"]), x, num(ch.int(0, 14))) if ch.chance(50) else fn("LEN", x)
            elif ch.chance(50): x = op("+", x, ("str", ">"))
        elif k == "val": x = fn("VAL", op("+", e, ("str", ch.pick(["", "1", " 2", "-3", ".5", "E1", "1E1"])))) if ch.chance(50) else fn("VAL", op("+", ("str", ch.pick(["", "1", " 2", "-3", "1E", "1E-", "."])), e))
        elif k == "time": x = op("+", ("fn", "TIME$", None), fn("STR$", fn("LEN", ("fn", "TIME$", ())))) 
        else:
            return [("let", idx("T$", num(ch.int(0, 10))), e, False), ("print", [("e", idx("T$", num(ch.int(0, 10)))), (";",)], False)]
        return [("print", [("e", x)] + ([(";",)] if ch.chance(30) else []), False)]

def gen(ch):
    g_ = S(ch)
    t = ch.int(0, 86399)
    pre = []
    for n in ("A$", "B$", "C$")[:ch.int(1, 3)]:
        L = ch.magic(0, 255) if ch.chance(20) else ch.pick(LENS) if ch.chance(60) else ch.int(0, 40)
        g_.len[n] = L
        pre += build(ch, n, L)
    tests = [g_.test() for _ in range(ch.int(1, 8))]
    style = ch if ch.chance(30) else None
    time = "%02d:%02d:%02d" % (t // 3600, t // 60 % 60, t % 60)
    if ch.chance(60):
        s = Session()
        s.vm.time = time
        for st in pre + tests: s.stmts(st, style)
        run = s.finish()
    else:
        lines = [(i + 1, st) for i, st in enumerate(pre + tests)]
        def setup(vm): vm.time = time
        run, vm = run_lines(lines, style, setup=setup, ctx=ch)
    run["faketime"] = 86400 * 11000 + t
    return dict(runs=[run], n=len(tests), big=g_.big)

def nontrivial(c): return c["n"] >= 3 and c["big"] >= 1
def classes(c):
    return ["interactive" if c["runs"][0]["stdin"] else "program", "with error" if c["runs"][0]["errors"] else "without error"]
