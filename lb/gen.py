"""Generators of literals, expressions, statements, layouts and whole terminating programs."""
from .engine import Discard
from .lang import *
from . import lang
from . import dict as D

COMMANDS = {"BYE", "COMPILE", "CONT", "HELP", "LIST", "LOAD", "NEW", "RENUM", "RENUMBER", "RUN", "SAVE"}
NAMES = ["A", "B", "C", "I", "J", "K", "X", "Y", "Z", "N1", "A1", "A2", "XY", "COUNT", "SUM7", "LLL", "VALUE2", "QQ", "M", "TT", "ABC", "W", "UV", "H9", "RUNNINGSUM", "LIS", "NEWX", "SAVES"]

def ok_name(n):
    """Usable as a name, and containing no keyword (so that it can be crunched)."""
    b = n.rstrip("$")
    if n in RESERVED or b in RESERVED or n in COMMANDS or b + "$" in RESERVED: return False
    return not any(k in b for k in KEYWORDS)
NAMES = [n for n in NAMES if ok_name(n)]

def hashpjw(s):
    h = 0
    for c in s.upper():
        h = (h << 4) + ord(c)
        g_ = h & 0xF0000000
        if g_: h ^= g_ >> 24; h ^= g_
        h &= 0xFFFFFFFF
    return h

# ------------------------------------------------------------------ literals
def magicnum(ch):
    """a numeral for a constant of the code, or for a number next to one"""
    if D.FLOATS and ch.chance(40):
        x = ch.pick(D.FLOATS)
        t = "%.15g" % x
        return (t if 0 < x < 1e300 else "0").upper().replace("E-0", "E-")
    n = ch.pick(D.NEAR)
    return "%d" % n + (ch.pick([".5", ".25", "."]) if ch.chance(10) else "")

def numlit(ch, wild=True):
    if wild and ch.chance(8): return magicnum(ch)
    k = ch.weighted([(10, 0), (5, 1), (3, 2), (2, 3), (1, 4), (1, 5)] if wild else [(10, 0), (2, 1)])
    if k == 0: return str(ch.int(0, 12))
    if k == 1: return str(ch.int(0, 70000))
    if k == 2: return "%d.%s" % (ch.int(0, 999), ch.pick(["5", "25", "125", "1", "75", "0625", "333", "99999"]))
    if k == 3: return "." + ch.pick(["5", "25", "1", "75", "001", "0", "03125"])
    if k == 4: return str(ch.int(0, 99)) + "."
    m = ch.pick(["1", "2.5", "7", ".5", "123", "9."])
    return m + "E" + ch.pick(["2", "-2", "10", "-10", "0", "05", "20", "-20", "+3"])

CHARS = " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
def strtext(ch, maxlen=12, chars=CHARS):
    if ch.chance(8): return ""
    if ch.chance(10): return ch.pick(["REM", "then", "PRINT X", "a:b", "10,20", "  two  ", "DATA", "ELSE 100", "'", "?"])[:maxlen]
    if chars is CHARS and maxlen >= 4 and ch.chance(4): return ch.pick(["\t", "a\tb", "\t x", "t\t"])
    if chars is CHARS and maxlen >= 4 and ch.chance(5):
        # words and characters of the code, perhaps repeated
        s = ch.pick(D.WORDS) if ch.chance(60) else ch.pick(D.PLAIN) * ch.int(1, maxlen)
        if ch.chance(50): s = strtext(ch, maxlen // 2, "ab 1:,") + s
        if ch.chance(50): s += strtext(ch, maxlen // 2, "ab 1:,")
        return s[:maxlen]
    n = ch.size(0, maxlen)
    return "".join(chars[ch.upto(len(chars) - 1)] for _ in range(n))

# ------------------------------------------------------------------ expressions
class Env:
    def __init__(self, nums=(), strs=(), arrs=None, fns=(), rnd=True):
        self.nums = list(nums); self.strs = list(strs); self.arrs = dict(arrs or {}); self.fns = list(fns)
        self.rnd = rnd
        self.wild = True
        self.risk = 4     # % of operands outside the documented domain
        self.infn = None  # parameter name while generating a DEF

NFN = ["ABS", "ATN", "COS", "EXP", "INT", "SGN", "SIN", "SQR", "TAN", "LOG", "LEN", "ASC", "VAL"]
REL = ["=", "<", ">", "<>", "<=", ">="]

def num(text): return ("num", str(text))
def var(n): return ("var", n)
def idx(n, *es): return ("idx", n, tuple(es))
def fn(n, *es): return ("fn", n, tuple(es))
def op(o, l, r): return ("bin", o, l, r)

def small(ch, env, d, hi):
    """an expression whose value is probably an integer within 0..hi"""
    k = ch.upto(5)
    if k < 3 or d <= 0: return num(ch.int(0, hi))
    if k == 3 and env.nums: return var(ch.pick(env.nums))
    return op("+", num(ch.int(0, hi // 2)), num(ch.int(0, hi - hi // 2)))

def nexpr(ch, env, d=3):
    if d <= 0 or ch.chance(15):
        k = ch.weighted([(4, 0), (5, 1)])
        if k == 1 and env.infn and ch.chance(60): return var(env.infn)
        if k == 1 and env.nums: return var(ch.pick(env.nums))
        return num(numlit(ch, env.wild))
    k = ch.weighted([(10, "ar"), (3, "neg"), (4, "rel"), (3, "log"), (2, "not"), (2, "pow"), (3, "fn"), (2, "sfn"), (2, "idx"), (2, "def"), (1, "par"), (1, "rnd")])
    if k == "ar": return op(ch.pick(["+", "-", "*", "/"]), nexpr(ch, env, d - 1), nexpr(ch, env, d - 1))
    if k == "neg": return ("neg", nexpr(ch, env, d - 1))
    if k == "rel": return cond(ch, env, d, 0)
    if k == "log":
        o = ch.pick(["AND", "OR"])
        return op(o, logical(ch, env, d - 1), logical(ch, env, d - 1))
    if k == "not": return ("not", logical(ch, env, d - 1))
    if k == "pow": return op("^", nexpr(ch, env, d - 2), num(ch.int(0, 3)) if ch.chance(70) else nexpr(ch, env, d - 2))
    if k == "fn":
        f = ch.pick(["ABS", "INT", "SGN", "SQR", "EXP", "LOG", "SIN", "COS", "TAN", "ATN"])
        a = nexpr(ch, env, d - 1)
        if f == "SQR": a = fn("ABS", a)
        if f == "LOG" and not ch.chance(env.risk): a = op("+", fn("ABS", a), num(1))
        return fn(f, a)
    if k == "sfn":
        f = ch.pick(["LEN", "ASC", "VAL"])
        if f == "VAL": return fn("VAL", fn("STR$", nexpr(ch, env, d - 1))) if not ch.chance(env.risk) else fn("VAL", sexpr(ch, env, d - 1))
        return fn(f, sexpr(ch, env, d - 1))
    if k == "idx":
        a = [n for n in env.arrs if not is_str(n)]
        if a: return element(ch, env, ch.pick(a), d - 1)
        return nexpr(ch, env, d - 1)
    if k == "def":
        a = [n for n in env.fns if not is_str(n)]
        if a and not env.infn: return idx(ch.pick(a), nexpr(ch, env, d - 2))
        return nexpr(ch, env, d - 1)
    if k == "rnd" and env.rnd:
        # RND and TIME$ where their value does not matter; their argument, which may be missing, is only evaluated
        j = ch.upto(6)
        a = None if j <= 1 else () if j == 2 else (nexpr(ch, env, d - 1),) if j <= 4 else (sexpr(ch, env, d - 1),)
        if ch.chance(20): return fn("LEN", ("fn", "TIME$", a))
        return fn("INT", ("fn", "RND", a))
    return ("par", nexpr(ch, env, d - 1))

def logical(ch, env, d):
    if ch.chance(env.risk): return nexpr(ch, env, d)
    k = ch.upto(3)
    if k == 0: return cond(ch, env, d, 0)
    if k == 1: return num(ch.int(0, 20))
    if k == 2 and d > 0: return ("not", logical(ch, env, d - 1))
    return fn("INT", op("/", nexpr(ch, env, 0), num(ch.int(1, 9)))) if ch.chance(50) else num(ch.int(0, 40000))

def cond(ch, env, d=2, logic=20):
    if logic and ch.chance(logic): return op(ch.pick(["AND", "OR"]), cond(ch, env, d - 1, 0), cond(ch, env, d - 1, 0))
    if logic and ch.chance(8): return ("not", cond(ch, env, d - 1, 0))
    if logic and ch.chance(8): return nexpr(ch, env, 0)
    if ch.chance(30): return op(ch.pick(REL), sexpr(ch, env, d - 1), sexpr(ch, env, d - 1))
    return op(ch.pick(REL), nexpr(ch, env, d - 1), nexpr(ch, env, d - 1))

def element(ch, env, name, d=1):
    maxes = env.arrs[name]
    es = []
    for m in maxes:
        if ch.chance(env.risk): es.append(nexpr(ch, env, min(d, 1)))
        elif env.nums and ch.chance(15): es.append(var(ch.pick(env.nums)))
        else: es.append(num(ch.int(0, m)))
    return ("idx", name, tuple(es))

def sexpr(ch, env, d=2):
    if d <= 0 or ch.chance(20):
        if env.strs and ch.chance(60): return var(ch.pick(env.strs))
        return ("str", strtext(ch))
    k = ch.weighted([(6, "cat"), (3, "left"), (3, "right"), (3, "mid"), (3, "chr"), (3, "str"), (2, "idx"), (2, "def"), (1, "par")])
    if k == "cat": return op("+", sexpr(ch, env, d - 1), sexpr(ch, env, d - 1))
    if k in ("left", "right"):
        return fn(k.upper() + "$", sexpr(ch, env, d - 1), small(ch, env, d - 1, 12) if not ch.chance(env.risk) else nexpr(ch, env, 1))
    if k == "mid":
        if ch.chance(env.risk): return fn("MID$", sexpr(ch, env, d - 1), nexpr(ch, env, 1), nexpr(ch, env, 1))
        return fn("MID$", op("+", ("str", strtext(ch) + "-"), sexpr(ch, env, d - 1)), num(1 if ch.chance(40) else ch.int(1, 6)), small(ch, env, d - 1, 9))
    if k == "chr": return fn("CHR$", num(ch.int(33, 126)) if not ch.chance(env.risk) else nexpr(ch, env, 1))
    if k == "str": return fn("STR$", nexpr(ch, env, d - 1))
    if k == "idx":
        a = [n for n in env.arrs if is_str(n)]
        if a: return element(ch, env, ch.pick(a), 1)
    if k == "def":
        a = [n for n in env.fns if is_str(n)]
        if a and not env.infn: return idx(ch.pick(a), nexpr(ch, env, d - 2))
    return ("par", sexpr(ch, env, d - 1))

def expr_for(ch, env, name, d=2):
    return sexpr(ch, env, d) if is_str(name) else nexpr(ch, env, d)

def printitems(ch, env, d=2, n=3):
    """items of a PRINT, unambiguous when rendered"""
    items = []
    k = ch.size(0, n)
    for i in range(k):
        w = ch.weighted([(6, "e"), (1, "tab"), (1, "spc"), (1, "sep")])
        if w == "e": items.append(("e", sexpr(ch, env, d) if ch.chance(35) else nexpr(ch, env, d)))
        elif w == "tab": items.append(("tab", num(ch.int(0, 50))))
        elif w == "spc": items.append(("spc", num(ch.int(0, 12))))
        items.append((ch.pick([";", ";", ","]),))
    if items and ch.chance(60): items.pop()
    return items

# ------------------------------------------------------------------ line references as labels
def relabel(s, f):
    """Apply f to every line reference of a statement."""
    k = s[0]
    if k in ("goto", "gosub"): return (k, f(s[1]))
    if k == "restore": return s if s[1] is None else (k, f(s[1]))
    if k == "on": return (k, s[1], s[2], [f(n) for n in s[3]])
    if k == "if":
        def part(p):
            if p is None: return None
            return ("line", f(p[1])) if p[0] == "line" else ("stmts", [relabel(q, f) for q in p[1]])
        r = (k, s[1], part(s[2]), part(s[3]))
        if len(s) > 4: r += ([relabel(q, f) for q in s[4]] if s[4] else None,)
        return r
    return s

def refs(stmts):
    r = []
    def f(n): r.append(n); return n
    for s in stmts: relabel(s, f)
    return r

def numbering(ch, n, hi=65000):
    """n increasing line numbers, in one of several styles"""
    if n > 2000: style = 1
    else: style = ch.weighted([(4, 0), (2, 1), (3, 2), (2, 3), (1, 4)])
    if style == 0: return [10 * (i + 1) for i in range(n)]
    if style == 1:
        a = ch.int(1, 100)
        return [a + i for i in range(n)]
    if style == 3 and 397 * n < hi: # all in the same place of a hash table of 397
        a = ch.int(1, 396)
        return [a + 397 * i for i in range(n)]
    if style == 4 and n < 300:
        return [hi - n + i for i in range(n)]
    r, x = [], 0
    gap = max(1, min(hi // (n + 1), ch.pick([3, 20, 100, 1000])))
    for _ in range(n):
        x += ch.int(1, gap)
        r.append(x)
    return r

# ------------------------------------------------------------------ whole programs
class Builder:
    """Builds a program of nested blocks: lines with labels (negative numbers) that become line numbers."""
    def __init__(self, ch, **o):
        self.ch = ch
        self.lines = []            # [labels, stmts]
        self.pending = []
        self.nlabel = 0
        self.o = dict(input=False, rnd=False, stop=False, clear=True, data=True, deffn=True, arrays=True, gosub=True, cls=False,
                      risk=3, depth=2, items=7, dump=True, column=True, rndexpr=True, ctx=10)
        self.o.update(o)
        k = ch.int(2, 5)
        base = ch.shuffle(NAMES)
        self.env = Env(nums=base[:k], strs=[n + "$" for n in base[k - 2:k + ch.int(0, 2)]], rnd=self.o["rndexpr"])
        self.env.risk = self.o["risk"]
        self.spare = base[k + 3:]
        self.loopvars = []
        self.subs = []             # labels of subroutines
        self.ndata = 0
        self.features = set()
        self.ctx = 0               # % of programs preceded by a context, when built whole

    def label(self):
        self.nlabel -= 1
        return self.nlabel

    def here(self, lab): self.pending.append(lab)

    def emit(self, *stmts):
        self.lines.append([self.pending, list(stmts)])
        self.pending = []

    # --- simple statements
    def target(self):
        ch, env = self.ch, self.env
        k = ch.upto(9)
        if k < 5: return var(ch.pick(env.nums))
        if k < 8: return var(ch.pick(env.strs))
        if env.arrs: return element(ch, env, ch.pick(sorted(env.arrs)), 1)
        return var(ch.pick(env.nums))

    def assignable(self, lv):
        """not the variable of an active loop, mostly"""
        return lv[1] not in self.loopvars or self.ch.chance(4)

    def let(self):
        lv = self.target()
        if not self.assignable(lv): lv = var(self.env.strs[0])
        return ("let", lv, expr_for(self.ch, self.env, lv[1]), self.ch.chance(25))

    def print_(self):
        return ("print", printitems(self.ch, self.env), self.ch.chance(25))

    def simple(self):
        ch, env, o = self.ch, self.env, self.o
        k = ch.weighted([(8, "let"), (8, "print"), (2, "read"), (1, "restore"), (1, "dim"), (1, "def"), (1, "input"), (1, "misc")])
        if k == "let": return self.let()
        if k == "read" and o["data"]:
            lvs = [self.target() for _ in range(ch.int(1, 2))]
            lvs = [v if self.assignable(v) else var(env.strs[0]) for v in lvs]
            if not ch.chance(o["risk"]): lvs = [v if is_str(v[1]) else v for v in lvs]
            self.features.add("read")
            return ("read", lvs)
        if k == "restore" and o["data"]: return ("restore", None)
        if k == "dim" and o["arrays"]:
            if env.arrs and ch.chance(25): n = ch.pick(sorted(env.arrs))
            else:
                n = ch.pick(self.spare[:6])
                if ch.chance(40): n += "$"
                if n in env.fns: return self.let()
            maxes = tuple(ch.int(0, 12) for _ in range(ch.int(1, 2)))
            env.arrs[n] = maxes
            self.features.add("dim")
            return ("dim", [(n, [num(m) for m in maxes])])
        if k == "def" and o["deffn"]:
            n = ch.pick(self.spare[6:10])
            if ch.chance(35): n += "$"
            if n in env.arrs: return self.let()
            p = ch.pick(env.nums + self.spare[10:12])
            env.infn = p
            e = expr_for(ch, env, n, 2)
            env.infn = None
            if n not in env.fns: env.fns.append(n)
            self.features.add("def")
            return ("def", n, p, e)
        if k == "input" and o["input"]:
            self.features.add("input")
            prompt = strtext(ch, 8) if ch.chance(50) else None
            sep = ch.pick([";", ",", ""]) if prompt is not None else None
            if ch.chance(25): return ("lineinput", prompt, sep, var(ch.pick(env.strs)))
            lvs = [self.target() for _ in range(ch.int(1, 3))]
            lvs = [v if self.assignable(v) else var(env.strs[0]) for v in lvs]
            return ("input", prompt, sep, lvs)
        if k == "misc":
            m = ch.upto(5)
            if m == 0: return ("rem_", )
            if m == 1 and o["clear"] and ch.chance(30): self.features.add("clear"); return ("clear",)
            if m == 2 and o["cls"]: return ("cls",)
            if m == 3 and o["stop"]: self.features.add("stop"); return ("stop",)
            if m == 4 and o["rnd"]: return ("randomize", num(ch.int(0, 99)))
        return self.print_()

    def simples(self, n=3):
        r = []
        for _ in range(self.ch.size(1, n)):
            s = self.simple()
            if s[0] == "rem_": s = ("empty",) if r else self.print_()
            r.append(s)
        if r[-1][0] == "empty": r[-1] = self.print_() # no empty statement before ELSE
        return r

    # --- lines and blocks
    def item(self, depth):
        ch, env, o = self.ch, self.env, self.o
        k = ch.weighted([(8, "simple"), (3, "if"), (3 if depth else 0, "for"), (2 if depth else 0, "skip"), (1 if depth else 0, "while"),
                         (2 if o["gosub"] and self.subs else 0, "gosub"), (1 if depth else 0, "on"), (1, "data"), (1, "rem")])
        getattr(self, "i_" + k)(depth)

    def i_simple(self, depth):
        self.emit(*self.simples())

    def i_rem(self, depth):
        self.emit(*(self.simples(1) if self.ch.chance(40) else []), ("rem", strtext(self.ch, 10)))

    def datum(self):
        ch = self.ch
        k = ch.upto(5)
        if k <= 2: t = numlit(ch); return (("-" if ch.chance(30) else "") + t,) * 2
        if k == 3: s = strtext(ch, 8); return ('"%s"' % s, s)
        s = "".join(c for c in strtext(ch, 8) if c not in '",:').strip()
        return (s, s)

    def i_data(self, depth):
        if not self.o["data"]: return self.i_simple(depth)
        its = [self.datum() for _ in range(self.ch.int(1, 4))]
        self.ndata += len(its)
        self.emit(("data", its))

    def i_if(self, depth):
        ch = self.ch
        c = cond(ch, self.env)
        pre = self.simples(1) if ch.chance(25) else []
        k = ch.upto(6)
        if k <= 1: then = ("stmts", self.simples(2)); els = None
        elif k == 2: then = ("stmts", self.simples(2)); els = ("stmts", self.simples(2))
        elif k == 3:
            then = ("stmts", self.simples(1))
            els = ("stmts", [("if", cond(ch, self.env), ("stmts", self.simples(1)), ("stmts", self.simples(1)) if ch.chance(60) else None)])
        elif k == 4:
            then = ("stmts", self.simples(1)[:1] * ch.upto(1) +
                    [("if", cond(ch, self.env), ("stmts", self.simples(1)), ("stmts", self.simples(1)) if ch.chance(60) else None)])
            els = None
        else:
            # line numbers
            a, b = self.label(), self.label()
            form = ch.upto(3)
            end = self.label()
            if form == 0:
                self.emit(*pre, ("if", c, ("line", a), None))
                self.i_simple(depth); self.here(a)
                return
            if form == 1: s = ("if", c, ("line", a), ("line", b))
            elif form == 2: s = ("if", c, ("stmts", self.simples(1) + [("goto", a)]), ("stmts", self.simples(1) + [("goto", b)]))
            else: s = ("if", c, ("stmts", [("goto", a)]), None)
            self.emit(*pre, s)
            if form == 3: self.emit(("goto", b))
            self.here(a); self.i_simple(depth); self.emit(("goto", end))
            self.here(b); self.i_simple(depth); self.here(end)
            return
        self.emit(*pre, ("if", c, then, els))

    def i_for(self, depth):
        ch, env = self.ch, self.env
        free = [v for v in env.nums if v not in self.loopvars]
        if not free: return self.i_simple(depth)
        v = ch.pick(free)
        a = ch.int(-3, 6)
        st = ch.pick([None, None, "1", "2", "-1", "-2", ".5", "-.5", "3"])
        n = ch.int(0, 4)
        step = float(st) if st else 1.0
        b = a + step * n + ch.pick([0, 0, .25, -.25])
        lit = lambda x: num("%g" % x) if x >= 0 else ("neg", num("%g" % -x))
        ea = lit(a)
        f = ("for", v, ea, lit(b), None if st is None else (num(st) if st[0] != "-" else ("neg", num(st[1:]))))
        self.features.add("for")
        nx = ("next", () if ch.chance(40) else (v,))
        self.loopvars.append(v)
        form = ch.upto(3)
        if form == 0: # on one line
            self.emit(f, *self.simples(2), nx, *([self.print_()] if ch.chance(40) else []))
        else:
            if form == 1: self.emit(f, self.simple2())
            else: self.emit(f)
            self.block(depth - 1, 3)
            # two loops ended by one NEXT
            self.emit(nx, *([self.print_()] if ch.chance(20) else []))
        self.loopvars.remove(v)

    def simple2(self):
        s = self.simple()
        return s if s[0] != "rem_" else self.print_()

    def i_skip(self, depth):
        """forward jump over a block, out of it, or from its middle"""
        ch = self.ch
        end = self.label()
        if ch.chance(50): self.emit(("if", cond(ch, self.env), ("line", end), None))
        self.block(depth - 1, 2)
        if ch.chance(40): self.emit(("if", cond(ch, self.env), ("stmts", self.simples(1) + [("goto", end)]), None))
        self.block(depth - 1, 2)
        self.here(end)

    def i_while(self, depth):
        ch = self.ch
        free = [v for v in self.env.nums if v not in self.loopvars]
        if not free: return self.i_simple(depth)
        v = ch.pick(free)
        top = self.label()
        self.emit(("let", var(v), num(0), False))
        self.here(top)
        self.loopvars.append(v)
        self.emit(("let", var(v), op("+", var(v), num(1)), False))
        self.block(depth - 1, 2)
        self.emit(("if", op("<", var(v), num(ch.int(1, 4))), ("line", top), None))
        self.loopvars.remove(v)
        self.features.add("while")

    def i_gosub(self, depth):
        self.features.add("gosub")
        lab = self.ch.pick(self.subs)
        if self.ch.chance(25):
            labs = [self.ch.pick(self.subs) for _ in range(self.ch.int(1, 3))]
            self.emit(("on", small(self.ch, self.env, 1, 3), "GOSUB", labs), self.print_())
            return
        pre = self.simples(1) if self.ch.chance(30) else []
        post = [self.print_()] if self.ch.chance(50) else []
        self.emit(*pre, ("gosub", lab), *post)

    def i_on(self, depth):
        ch = self.ch
        labs = [self.label() for _ in range(ch.int(1, 3))]
        end = self.label()
        self.emit(("on", small(ch, self.env, 1, 3), "GOTO", [ch.pick(labs) for _ in range(ch.int(1, 4))]), *([self.print_()] if ch.chance(40) else []))
        for l in labs:
            self.here(l)
            self.i_simple(depth)
            if ch.chance(60): self.emit(("goto", end))
        self.here(end)
        self.features.add("ongoto")

    def block(self, depth, items):
        for _ in range(self.ch.size(1, items)): self.item(depth)

    def build(self):
        ch, o = self.ch, self.o
        env = self.env
        subs = [self.label() for _ in range(ch.int(0, 3))] if o["gosub"] else []
        self.subs = list(subs)
        if o["arrays"] and ch.chance(60):
            for n in ch.shuffle(self.spare[:6])[:ch.int(1, 2)]:
                if ch.chance(40): n += "$"
                maxes = tuple(ch.int(1, 11) for _ in range(ch.int(1, 2)))
                env.arrs[n] = maxes
                self.emit(("dim", [(n, [num(m) for m in maxes])]))
        self.block(o["depth"], o["items"])
        if o["dump"]: self.dump()
        self.emit(("end",))
        for i, l in enumerate(subs):
            self.subs = subs[i + 1:]
            self.here(l)
            self.loopvars = list(env.nums) if ch.chance(50) else []
            self.block(1, 3)
            self.emit(*(self.simples(1) if ch.chance(30) else []), ("return",))
            self.loopvars = []
        if o["data"] and "read" in self.features:
            for _ in range(ch.int(1, 3)): self.i_data(0)
        if self.pending: self.emit(("rem", ""))
        self.ctx = o["ctx"]
        return self

    def dump(self):
        """observe every variable"""
        vs = self.env.nums + self.env.strs
        self.emit(("print", [x for v in vs for x in (("e", var(v)), (";",))], False))

    def resolve(self, nums=None):
        """[(num, stmts)]"""
        if nums is None: nums = numbering(self.ch, len(self.lines))
        m = {}
        for (labs, _), n in zip(self.lines, nums):
            for l in labs: m[l] = n
        r = [(n, [relabel(s, lambda r: m.get(r, r)) for s in ss]) for n, (_, ss) in zip(nums, self.lines)]
        return context(self.ch, r, self.ctx) if self.ctx else r

def has(stmts, kinds):
    for s in stmts:
        if s[0] in kinds: return True
        if s[0] == "if":
            for q in s[2:4]:
                if q is not None and q[0] == "stmts" and has(q[1], kinds): return True
            if len(s) > 4 and s[4] and has(s[4], kinds): return True
    return False

def scramble(ch, lines, where=None):
    """The same program with its parts in another order, held together by GOTOs: so subroutines and loops come before what uses them.
    where: filled with the new number of each line."""
    n = len(lines)
    if n < 2 or n > 300: return lines
    if any(has(ss, ("data", "dim")) for _, ss in lines) and ch.chance(60): return lines
    cuts = sorted(set(ch.int(1, n - 1) for _ in range(ch.weighted([(3, 1), (4, 2), (3, ch.int(2, 6)), (1, n)]))))
    blocks = [lines[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    # definitions at the start stay there
    order = ch.shuffle(list(range(len(blocks)))) if ch.chance(70) else list(range(len(blocks)))[::-1]
    out = []                                        # (old number or None, statements)
    if order[0] != 0: out.append((None, [("goto", blocks[0][0][0])]))
    for j, i in enumerate(order):
        out += blocks[i]
        if i + 1 == len(blocks):
            if j + 1 < len(order): out.append((None, [("end",)]))
        elif j + 1 == len(order) or order[j + 1] != i + 1:
            out.append((None, [("goto", blocks[i + 1][0][0])]))
    nums = numbering(ch, len(out), 60000)
    if where is None: where = {}
    where.update({o: k for (o, _), k in zip(out, nums) if o is not None})
    lost = set(r for _, ss in lines for r in refs(ss) if r not in where)
    if lost & set(nums):
        where.clear()
        return lines
    return [(k, [relabel(s, lambda r: where.get(r, r)) for s in ss]) for (_, ss), k in zip(out, nums)]

CTX = ["FZ%d" % i for i in range(10)]
def context(ch, lines, p=18, dims=True, big=True, order=True):
    """The lines preceded by others that leave loops and subroutine calls unfinished, or have done things the program must not notice;
    or their parts in another order."""
    if not lines: return lines
    if order and ch.chance(p * 2 // 5): lines = scramble(ch, lines)
    if not ch.chance(p): return lines
    pre = []                # statements; ("gosub", -1): to the next line; ("goto", -2): to the one after that
    loops = 0
    for _ in range(ch.size(1, 3)):
        k = ch.weighted([(4, "for"), (4, "gosub"), (1, "loop"), (1, "names"), (1, "string"), (1, "array"), (1, "def"), (1, "sub"), (1, "deep"), (1, "cross"), (1, "many"), (1, "filler")])
        if k == "for":
            n = ch.pick([1, 2, 3, 4, 5, 6])
            fs = [("for", CTX[(loops + i) % 10], num(1), num(ch.int(1, 2)), None if ch.chance(60) else num(ch.int(1, 2))) for i in range(n)]
            loops += n
            if ch.chance(50): pre.append(fs)
            else: pre += [[f] for f in fs]
        elif k == "gosub": pre += [[("gosub", -1)] for _ in range(ch.int(1, 6))]
        elif k == "cross":
            for _ in range(ch.int(1, 3)):
                pre += [[("for", CTX[loops % 10], num(1), num(1), None)], [("gosub", -1)]]; loops += 1
        elif k == "loop": pre.append([("for", CTX[loops % 10], num(1), num(ch.int(1, 60)), None), ("let", var("FZZ"), op("+", var("FZZ"), num(1)), False), ("next", ())])
        elif k == "names": pre += [[("let", var("%s%d" % (ch.pick(["FZN", "FX", "K"]), i)), num(i), False) for i in range(j, j + 5)] for j in range(0, ch.int(5, 30), 5)]
        elif k == "string":
            pre.append([("for", CTX[loops % 10], num(1), num(ch.int(1, 14)), None), ("let", var("FZ$"), op("+", var("FZ$"), ("str", "0123456789ABCDEF")), False), ("next", ())])
        elif k == "array" and dims:
            pre.append([("let", idx("FZA", num(ch.int(0, 10))), num(5), False), ("let", idx("FZA$", num(1), num(ch.int(0, 10))), ("str", "ctx"), False)])
        elif k == "def": pre.append([("def", "FZF", "FZX", op("*", var("FZX"), num(2))), ("let", var("FZY"), idx("FZF", num(4)), False)])
        elif k == "sub": pre += [[("gosub", -2)], [("goto", -2)], [("return",)]]
        elif k == "deep":
            e = num(1)
            for i in range(ch.int(6, 14)): e = op("+", num(i), ("par", e))
            pre.append([("let", var("FZY"), e, False)])
        elif k == "filler":
            # much code that is passed over
            if not big or not ch.chance(60): continue
            pre.append([("goto", -3)])
            f = ch.pick([[("let", var("FZY"), num(1), False)] * 16, [("print", [("e", ("str", "filler"))], False)] * 6, [("goto", 64999)] * 10, [("data", [("1", "1")])][:0] or [("let", var("FZ$"), ("str", "f"), False)] * 10])
            pre += [f] * ch.pick([8, 8, 30, 30, 100, 300])
        else: pre += [[("rem", "line %d" % i)] for i in range(ch.int(1, 150))]
    if not pre: return lines
    m = len(pre)
    first, last = lines[0][0], lines[-1][0]
    if first <= m:
        d = m + 1 - first
        if last + d > 65000: return lines
        keep = {n for n, _ in lines}
        lines = [(n + d, [relabel(s, lambda r: r + d if r in keep else r) for s in ss]) for n, ss in lines]
        first += d
    step = max(1, min(10, (first - 1) // m))
    nums = [first - step * (m - i) for i in range(m)] + [n for n, _ in lines[:2]]
    if len(nums) < m + 2: nums.append(64999)
    if any(n == 64999 for n in nums[m + 1:]) and any(s == ("goto", -2) or s == ("gosub", -2) for ss in pre[-1:] for s in ss): return lines
    out = []
    follow = {}
    i = m
    for j in range(m - 1, -1, -1):       # the first line after j that is not filler
        if not (len(pre[j]) >= 6 and pre[j][0] == pre[j][-1]): i = j
        follow[j] = i
    for i, ss in enumerate(pre):
        to = nums[follow[i + 1] if i + 1 < m else m]
        out.append((nums[i], [relabel(s, lambda r: nums[i + 1] if r == -1 else nums[i + 2] if r == -2 else to if r == -3 else r) for s in ss]))
    return out + lines

def program(ch, **o):
    """A random program: (lines, builder)"""
    b = Builder(ch, **o).build()
    return b.resolve(), b

def reply(ch):
    """a line of input for INPUT, mostly plausible"""
    k = ch.weighted([(6, "nums"), (3, "mixed"), (1, "text"), (1, "empty")])
    sgn = lambda: ch.pick(["", "", "-", "+", " "])
    if k == "nums": return ",".join(sgn() + numlit(ch) for _ in range(ch.int(1, 3)))
    if k == "mixed": return ",".join(numlit(ch) if ch.chance(60) else strtext(ch, 6).replace(",", "") for _ in range(ch.int(1, 4)))
    if k == "text": return strtext(ch, 20)
    return ""
