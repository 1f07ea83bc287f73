"""Abstract syntax of Legacy Basic, its rendering to source text, and a reference interpreter.

Expressions (tuples):
  ('num', text)  ('str', text)  ('var', NAME)  ('idx', NAME, (e,...))  ('fn', NAME, (e,...))
  ('bin', op, l, r)  ('neg', e)  ('not', e)  ('par', e)
Statements (tuples), see Vm.x_*.  A line is (number, [statements]).
"""
import ctypes, ctypes.util, math
from .engine import Discard

libm = ctypes.CDLL(ctypes.util.find_library("m") or "libm.so.6")
def _f(name, n):
    f = getattr(libm, name); f.restype = ctypes.c_double; f.argtypes = [ctypes.c_double] * n
    return f
c_pow, c_sin, c_cos, c_tan, c_atan, c_exp, c_log, c_sqrt, c_floor = (
    _f("pow", 2), _f("sin", 1), _f("cos", 1), _f("tan", 1), _f("atan", 1), _f("exp", 1), _f("log", 1), _f("sqrt", 1), _f("floor", 1))
libc = ctypes.CDLL(None)
libc.strtod.restype = ctypes.c_double
libc.strtod.argtypes = [ctypes.c_char_p, ctypes.POINTER(ctypes.c_char_p)]

def strtod(s):
    """(value, number of characters used)"""
    raw = s.encode("latin-1") + b"\0"
    buf = ctypes.create_string_buffer(raw)
    end = ctypes.c_char_p()
    endp = ctypes.c_void_p()
    f = libc.strtod
    e = ctypes.pointer(end)
    v = f(ctypes.cast(buf, ctypes.c_char_p), e)
    used = ctypes.cast(end, ctypes.c_void_p).value - ctypes.addressof(buf)
    return v, used

def convert(s):
    """Documented number text: blanks, number, blanks. Returns (value, rest) or None."""
    t = s.lstrip(" \t")
    if t and (t[0].isdigit() and t[0] in "0123456789" or t[0] in ".-+"):
        d = t[1:] if t[0] in "+-" else t
        if d[:1].isalpha() or d[:2].lower() == "0x": return None # not a Basic number
        v, n = strtod(t)
        return v, t[n:].lstrip(" \t")
    return None

def g(x):
    if x != x: raise Discard("NaN printed")
    return "%g" % x

NUM_STACK, STR_STACK, GOSUB_DEPTH, FOR_DEPTH, MAXELEM = 16, 8, 8, 8, 65536

def is_str(name): return name.endswith("$")

BUILTIN = {  # name: (argument types, result is string)
    "ABS": ("n", 0), "ASC": ("s", 0), "ATN": ("n", 0), "CHR$": ("n", 1), "COS": ("n", 0), "EXP": ("n", 0), "INT": ("n", 0),
    "LEFT$": ("sn", 1), "LEN": ("s", 0), "LOG": ("n", 0), "MID$": ("snn", 1), "RIGHT$": ("sn", 1), "RND": ("d", 0), "SGN": ("n", 0),
    "SIN": ("n", 0), "SQR": ("n", 0), "STR$": ("n", 1), "TAN": ("n", 0), "TIME$": ("d", 1), "VAL": ("s", 0)}
UNIMPLEMENTED = ("FIX", "GET$", "HEX$", "INKEY$", "SPACE$", "USR")
KEYWORDS = ("AND CLEAR CLS DATA DEF DIM ELSE END FOR GOSUB GOTO IF INPUT LET LINE NEXT NOT ON OR PRINT RANDOMIZE READ REM "
            "RESTORE RETURN STEP STOP THEN TO").split()
RESERVED = set(KEYWORDS) | set(BUILTIN) | set(UNIMPLEMENTED) | {"SPC", "TAB"}

def type_of(e):
    k = e[0]
    if k == "str": return "s"
    if k in ("var", "idx"): return "s" if is_str(e[1]) else "n"
    if k == "fn": return "s" if BUILTIN[e[1]][1] else "n"
    if k == "bin": return type_of(e[2]) if e[1] == "+" else "n"
    if k == "par": return type_of(e[1])
    return "n"

# ------------------------------------------------------------------ rendering
# tokens: (kind, text), kind: k keyword, n name, d number, s string literal (with quotes), o operator, D raw data, R raw rest of line
PREC = {"OR": 1, "AND": 2, "=": 4, "<": 4, ">": 4, "<>": 4, "<=": 4, ">=": 4, "+": 5, "-": 5, "*": 6, "/": 6, "^": 8}
def prec(e):
    k = e[0]
    if k == "bin": return PREC[e[1]]
    if k == "not": return 3
    if k == "neg": return 7
    return 9

def etok(e, out, level=0):
    """Append the tokens of e, in parentheses if it binds less tightly than level."""
    k = e[0]
    p = prec(e)
    if p < level:
        out.append(("o", "(")); etok(e, out, 0); out.append(("o", ")"))
        return
    if k == "num": out.append(("d", e[1]))
    elif k == "str": out.append(("s", '"%s"' % e[1]))
    elif k == "var": out.append(("n", e[1]))
    elif k == "idx": out.append(("n", e[1])); args(e[2], out)
    elif k == "fn":
        out.append(("n", e[1]))
        if e[2] is not None: args(e[2], out)
    elif k == "par": out.append(("o", "(")); etok(e[1], out, 0); out.append(("o", ")"))
    elif k == "neg": out.append(("o", "-")); etok(e[1], out, 7)
    elif k == "not": out.append(("k", "NOT")); etok(e[1], out, 3)
    else:
        op = e[1]
        if op == "^": l, r = 9, 8
        elif p == 4: l, r = 5, 5
        else: l, r = p, p + 1
        etok(e[2], out, l)
        out.append(("k", op) if op in ("AND", "OR") else ("o", op))
        etok(e[3], out, r)

def args(es, out):
    out.append(("o", "("))
    for i, a in enumerate(es):
        if i: out.append(("o", ","))
        etok(a, out)
    out.append(("o", ")"))

def stok(s, out):
    k = s[0]
    K = lambda w: out.append(("k", w))
    O = lambda w: out.append(("o", w))
    N = lambda w: out.append(("n", w))
    D = lambda w: out.append(("d", str(w)))
    E = lambda e: etok(e, out)
    def seq(items, f):
        for i, x in enumerate(items):
            if i: O(",")
            f(x)
    if k == "let":
        if s[3]: K("LET")
        E(s[1]); O("="); E(s[2])
    elif k == "print":
        if s[2]: O("?")
        else: K("PRINT")
        for it in s[1]:
            if it[0] == "e": E(it[1])
            elif it[0] in ("tab", "spc"): N(it[0].upper()); O("("); E(it[1]); O(")")
            else: O(it[0])
    elif k == "for":
        K("FOR"); N(s[1]); O("="); E(s[2]); K("TO"); E(s[3])
        if s[4] is not None: K("STEP"); E(s[4])
    elif k == "next": K("NEXT"); seq(s[1], N)
    elif k == "goto": K("GOTO"); D(s[1])
    elif k == "gosub": K("GOSUB"); D(s[1])
    elif k == "on": K("ON"); E(s[1]); K(s[2]); seq(s[3], D)
    elif k == "if":
        K("IF"); E(s[1]); K("THEN")
        if s[2][0] == "line": D(s[2][1])
        else: sstok(s[2][1], out)
        if s[3] is not None:
            K("ELSE")
            if s[3][0] == "line": D(s[3][1])
            else: sstok(s[3][1], out)
        if len(s) > 4 and s[4]:
            O(":"); sstok(s[4], out)
    elif k == "data":
        K("DATA")
        for i, it in enumerate(s[1]):
            if i: O(",")
            out.append(("D", it[0]))
    elif k == "read": K("READ"); seq(s[1], E)
    elif k == "restore":
        K("RESTORE")
        if s[1] is not None: D(s[1])
    elif k == "dim": K("DIM"); seq(s[1], lambda a: (N(a[0]), args(a[1], out)))
    elif k == "def": K("DEF"); N(s[1]); O("("); N(s[2]); O(")"); O("="); E(s[3])
    elif k == "input":
        K("INPUT")
        if s[1] is not None:
            out.append(("s", '"%s"' % s[1]))
            if s[2]: O(s[2])
        seq(s[3], E)
    elif k == "lineinput":
        K("LINE"); K("INPUT")
        if s[1] is not None:
            out.append(("s", '"%s"' % s[1]))
            if s[2]: O(s[2])
        E(s[3])
    elif k == "rem": K("REM"); out.append(("R", s[1]))
    elif k == "randomize":
        K("RANDOMIZE")
        if s[1] is not None: E(s[1])
    elif k == "empty": pass
    else: K(k.upper())  # return stop end clear cls

def sstok(ss, out):
    for i, s in enumerate(ss):
        if i: out.append(("o", ":"))
        stok(s, out)

def ltok(stmts):
    out = []
    sstok(stmts, out)
    return out

def need_space(a, b):
    """Must tokens a and b be separated by a blank (keywords not recognised anywhere)?"""
    (ka, ta), (kb, tb) = a, b
    if kb == "R" or ka == "R": return False
    if kb == "D": return ka == "k" and tb[:1].isalnum() or tb[:1] == "$"
    wb = kb in "knd"
    if ka in "kn" and wb:
        if ta.endswith("$"): return False
        return tb[0] != "."
    if ka == "d" and kb == "d": return True
    if ka == "d" and kb in "kn":
        return tb[0] in "eE"
    if ka == "d" and tb[0] == ".": return True
    return False

def join(toks, style=None):
    """Lay tokens out. style None: canonical; otherwise a Choices deciding blanks and case."""
    r = []
    for i, t in enumerate(toks):
        k, s = t
        if i:
            p = toks[i - 1]
            if k == "R": r.append(s and " "); r.append(s); continue
            if style is None:
                if need_space(p, t) or (p[0] == "k" and k != "o") or (k == "k") or p[1] == "?" and 0: r.append(" ")
                elif p[0] == "k" and t[1] not in (":", ","): r.append(" ")
                elif p[1] == ":" : r.append(" ")
            else:
                n = style.weighted([(6, 0), (6, 1), (1, 2), (1, 3)])
                if n == 0 and need_space(p, t): n = 1
                r.append(" " * n if n < 3 else "\t ")
        if style is not None and k in "kn" and style.chance(40):
            m = style.upto(2)
            s = s.lower() if m == 0 else s.capitalize() if m == 1 else "".join(c.lower() if style.upto(1) else c for c in s)
        elif style is not None and k == "d" and "E" in s and style.chance(50): s = s.lower()
        r.append(s)
    return "".join(r)

def text_of(stmts, style=None):
    return join(ltok(stmts), style)

def program_text(lines, style=None):
    """lines: [(num, stmts)] -> [(num, text)]"""
    return [(n, text_of(ss, style)) for n, ss in lines]

def file_text(tlines):
    for n, t in tlines:
        if len("%d %s" % (n, t)) > 254: raise Discard("line too long")
    return "".join("%d %s\n" % (n, t) for n, t in tlines)

# ------------------------------------------------------------------ reference interpreter
class BasicError(Exception):
    def __init__(self, why, line=0):
        Exception.__init__(self, why); self.why = why

class EndOfRun(Exception):
    pass

class Code:
    """A compiled program or immediate line: flat operations."""
    def __init__(self, tlines, lines, immediate=False):
        self.immediate = immediate
        self.lines = tlines            # [(num, text)]
        self.ops = []
        self.index = {}
        self.data = []                 # (text, position)
        for li, (num, stmts) in enumerate(lines):
            self.index[num] = len(self.ops)
            self.ops.append(("line", li))
            self.fix = []
            self.stmts(stmts)
            for j in self.fix:
                op = self.ops[j]
                self.ops[j] = op[:-1] + (len(self.ops),)
            self.fix = []
        self.has_data = bool(self.data)

    def stmts(self, ss):
        for s in ss: self.stmt(s)

    def emit(self, *op):
        self.ops.append(op)
        return len(self.ops) - 1

    def stmt(self, s):
        k = s[0]
        if k == "if":
            then, els = s[2], s[3]
            if then[0] == "line":
                self.emit("iftrue", s[1], then[1])
                if els is not None: self.emit("s", ("goto", els[1]))
                else: self.fix.append(self.emit("jump", None))
                if len(s) > 4 and s[4]: self.stmts(s[4])
            else:
                c = self.emit("iffalse", s[1], None)
                self.stmts(then[1])
                if els is None: self.fix.append(c)
                else:
                    self.fix.append(self.emit("jump", None))
                    self.ops[c] = self.ops[c][:-1] + (len(self.ops),)
                    self.stmts(els[1])
        elif k == "data":
            for it in s[1]:
                self.data.append((it[1], len(self.ops)))
                self.emit("nop")
        elif k == "next" and len(s[1]) > 1:
            for v in s[1]: self.emit("s", ("next", (v,)))
        elif k == "input":
            a = self.emit("inputbuf", s[1])
            for i, lv in enumerate(s[3]):
                if i: self.emit("inputsep", a)
                self.emit("inputitem", lv, a)
            self.emit("inputend")
        elif k == "print":
            # one operation per item: a break may come between
            items = s[1]
            for it in items: self.emit("pr", it)
            if not items or items[-1][0] not in (";", ","): self.emit("pr", ("nl",))
        elif k == "dim":
            for a in s[1]: self.emit("s", ("dim1", a[0], a[1]))
        elif k == "read":
            for lv in s[1]: self.emit("s", ("read1", lv))
        elif k in ("rem", "empty"): self.emit("nop")
        else: self.emit("s", s)

class Vm:
    """Values, control state and stored program, as the manual describes them."""
    def __init__(self, reader=None, max_steps=20000):
        self.out = []
        self.errors = []          # (number, text) or None for a line that cannot be named
        self.sysret = 1           # what system() returns
        self.system = []          # [length of output, command] passed to the operating system
        self.reader = reader or (lambda: None)  # next line of standard input, with its newline, or None at the end
        self.steps = 0; self.max_steps = max_steps
        self.prog = None          # Code
        self.maxnum = self.maxstr = 0
        self.trace = None         # list of line numbers executed when not None
        self.clear_names()
        self.reset_control()
        self.rnd = None
        self.brk = None
        self.cont = None
        self.features = set()
        self.nfor = self.niter = self.njump = 0 # jumps, FOR statements and iterations executed

    # --- environment
    def clear_names(self):
        self.kinds = {}           # parenthesised names: U, A, D
        self.clear_values()
    def clear_values(self):
        self.num = {}; self.str = {}; self.arr = {}; self.defs = {}
    def reset_control(self):
        self.code = None; self.pc = 0; self.line = 0
        self.fors = []; self.rets = []
        self.col = 1
        self.pdata = 0; self.idata = 0
        self.cont = None
        self.infn = False

    # --- names
    def register(self, code_lines):
        """Give parenthesised names their kinds, in the order of the text."""
        def ref(n, kind):
            k = self.kinds.get(n)
            if k is None: self.kinds[n] = kind
            elif k == "U":
                self.kinds[n] = kind
            elif kind != "U" and k != kind: raise Discard("name used in two ways: " + n)
        def ex(e):
            k = e[0]
            if k == "idx":
                for a in e[2]: ex(a)
                ref(e[1], "U")
            elif k == "fn":
                for a in e[2] or (): ex(a)
            elif k == "bin": ex(e[2]); ex(e[3])
            elif k in ("neg", "not", "par"): ex(e[1])
        def lv(v):
            if v[0] == "idx":
                for a in v[2]: ex(a)
                ref(v[1], "A")
        def st(s):
            k = s[0]
            if k == "let": lv(s[1]); ex(s[2])
            elif k == "print":
                for it in s[1]:
                    if len(it) > 1: ex(it[1])
            elif k == "for":
                for e in s[2:5]:
                    if e is not None: ex(e)
            elif k == "on": ex(s[1])
            elif k == "if":
                ex(s[1])
                for part in (s[2], s[3]):
                    if part is not None and part[0] != "line":
                        for q in part[1]: st(q)
                if len(s) > 4 and s[4]:
                    for q in s[4]: st(q)
            elif k == "read":
                for v in s[1]: lv(v)
            elif k == "dim":
                for n, es in s[1]:
                    for e in es: ex(e)
                    ref(n, "A")
            elif k == "def": ref(s[1], "D"); ex(s[3])
            elif k == "input":
                for v in s[3]: lv(v)
            elif k == "lineinput": lv(s[3])
            elif k == "randomize" and s[1] is not None: ex(s[1])
        for _, ss in code_lines:
            for s in ss: st(s)

    # --- output
    def put(self, s): self.out.append(s)

    # --- running
    def load(self, tlines, lines):
        """Compile a stored program."""
        self.clear_names()
        self.prog = Code(tlines, lines)
        self.register(lines)
        self.reset_control()

    def run_program(self):
        self.clear_values()
        self.reset_control()
        self.code = self.prog; self.pc = 0
        return self.go()

    def run_immediate(self, text, stmts):
        lines = [(0, stmts)]
        self.register(lines)
        c = Code([(0, text)], lines, immediate=True)
        self.idata = 0
        self.code = c; self.pc = 0
        r = self.go()
        if any(x[0] is not self.prog for x in self.rets) or any(f["code"] is not self.prog for f in self.fors):
            self.reset_control()
        return r

    def go(self):
        """Run from the current position; returns 'end', 'stop' or 'error'."""
        how = "end"
        try:
            while self.pc < len(self.code.ops):
                if self.brk is not None:
                    # watched: brk is the number of operations to go before a break, or a function called before each
                    if callable(self.brk): self.brk()
                    elif self.brk == 0: how = "break"; break
                    else: self.brk -= 1
                self.steps += 1
                if self.steps > self.max_steps: raise Discard("too many steps")
                if self.step(): how = "stop"; break
        except BasicError as e:
            how = "error"
            self.errors.append(self.where())
            self.last_error = e.why
            self.infn = False
        if how == "end" and self.brk == 0: how = "break"
        if how == "break": self.put("Break\n"); self.brk = None
        if how == "stop":
            n, t = self.code.lines[self.line]
            self.put("%d %s\nStopped\n" % (n, t))
        if self.code is self.prog and self.prog is not None:
            self.cont = (self.code, self.pc + 1, self.line) if how == "stop" else (self.code, self.pc, self.line) if how == "break" else None
        return how

    def cont_(self):
        """CONT; None if it cannot."""
        if self.cont is None: return None
        self.code, self.pc, self.line = self.cont
        return self.go()

    def where(self):
        if self.infn: return self.fnwhere
        return self.code.lines[self.line]

    def fail(self, why): raise BasicError(why)

    def step(self):
        op = self.code.ops[self.pc]
        k = op[0]
        if k == "line":
            self.line = op[1]
            if self.trace is not None: self.trace(self.code.lines[op[1]][0])
        elif k == "pr": self.pr(op[1])
        elif k == "s":
            r = getattr(self, "x_" + op[1][0])(op[1])
            if r == "jumped": return False
            if r == "stop": return True
        elif k == "iffalse":
            if self.ev(op[1], 0, 0) == 0: self.features.add("iffalse"); self.pc = op[2]; return False
            self.features.add("iftrue")
        elif k == "iftrue":
            if self.ev(op[1], 0, 0) != 0: self.features.add("iftrue"); self.jump(op[2]); return False
            self.features.add("iffalse")
        elif k == "jump": self.pc = op[1]; return False
        elif k == "inputbuf":
            self.put((op[1] or "") + "? ")
            if not self.readbuf(): return False
        elif k == "inputsep":
            self.inbuf = self.inbuf.lstrip(" \t")
            if self.inbuf[:1] == ",": self.inbuf = self.inbuf[1:]
            else:
                self.put("* More input items are expected *\n"); self.features.add("more")
                self.pc = op[1] ; return False
        elif k == "inputitem":
            lv = op[1]
            idx = self.index_values(lv, 0)
            if is_str(lv[1]):
                n = 0
                while n < len(self.inbuf) and self.inbuf[n] not in "\n,": n += 1
                v, self.inbuf = self.inbuf[:n], self.inbuf[n:]
                self.store(lv, idx, v)
            else:
                c = convert(self.inbuf)
                if c is None or c[1][:1] not in ("", "\n", ","):
                    self.put("* Invalid input *\n"); self.features.add("invalid")
                    self.pc = op[2]; return False
                self.store(lv, idx, c[0])
                self.inbuf = c[1]
        elif k == "inputend":
            self.inbuf = self.inbuf.lstrip(" \t\n\r")
            if self.inbuf: self.put("* Extra input was discarded *\n"); self.features.add("extra")
        self.pc += 1
        return False

    def readbuf(self):
        s = self.reader()
        if s is None: self.features.add("eof"); self.fail("end of input")
        if len(s.rstrip("\n")) > 126:
            self.put("* Input line is too long *\n"); self.features.add("long")
            return False
        self.inbuf = s
        return True

    def jump(self, n):
        if self.prog is None or n not in self.prog.index: self.features.add("noline"); self.fail("line not found")
        self.njump += 1
        self.pc = self.prog.index[n]; self.code = self.prog

    # --- printing
    def pr(self, it):
        k = it[0]
        if k == "e":
            v = self.ev(it[1], 0, 0)
            if isinstance(v, str):
                self.put(v)
                i = v.rfind("\n")
                if i >= 0: self.col = len(v) - i
                else: self.col += len(v)
            else:
                s = " %s " % g(v)
                self.put(s); self.col += len(s)
        elif k == ",":
            n = 8 - (self.col - 1) % 8
            self.put(" " * n); self.col += n
        elif k == ";": pass
        elif k == "nl": self.put("\n"); self.col = 1
        elif k == "spc":
            n = self.uns(self.ev(it[1], 0, 0))
            if n > 5000: raise Discard("long SPC")
            self.put(" " * n); self.col += n
        elif k == "tab":
            n = self.uns(self.ev(it[1], 0, 0))
            if n > 5000: raise Discard("long TAB")
            if n < self.col: self.put("\n"); self.col = 1
            if n > self.col: self.put(" " * (n - self.col)); self.col = n

    def uns(self, x):
        if x < 0 or x != x or c_floor(x) != x or x > 4294967295: self.fail("non-negative integer expected")
        return int(x)

    def logic(self, x):
        if x != x or x < -2147483648 or x > 2147483647 or c_floor(x) != x: self.fail("invalid logical value")
        return int(x)

    # --- expressions. n, s: values already on the numeric and string stacks
    def pn(self, n):
        if n >= NUM_STACK: raise Discard("numeric stack")
        if n >= self.maxnum: self.maxnum = n + 1
    def ps(self, s):
        if s >= STR_STACK: raise Discard("string stack")
        if s >= self.maxstr: self.maxstr = s + 1

    def ev(self, e, n, s):
        k = e[0]
        if k == "num":
            self.pn(n)
            return strtod(e[1])[0]
        if k == "str":
            self.ps(s)
            return e[1]
        if k == "var":
            if is_str(e[1]):
                self.ps(s)
                return self.str.get(e[1], "")
            self.pn(n)
            return self.num.get(e[1], 0.0)
        if k == "par": return self.ev(e[1], n, s)
        if k == "neg": return -self.ev(e[1], n, s)
        if k == "not":
            v = self.ev(e[1], n, s)
            return float(~self.logic(v))
        if k == "bin":
            op = e[1]
            l = self.ev(e[2], n, s)
            if isinstance(l, str):
                r = self.ev(e[3], n, s + 1)
                if op == "+":
                    if len(l) + len(r) > 255: self.fail("string too long")
                    return l + r
                self.pn(n)
            else:
                r = self.ev(e[3], n + 1, s)
                if op == "+": return l + r
                if op == "-": return l - r
                if op == "*": return l * r
                if op == "/":
                    if r == 0:
                        if l == 0 or l != l: return float("nan")
                        return math.copysign(float("inf"), math.copysign(1, l) * math.copysign(1, r))
                    return l / r
                if op == "^": return c_pow(l, r)
                if op in ("AND", "OR"):
                    b = self.logic(r); a = self.logic(l)
                    return float(a & b if op == "AND" else a | b)
            if op == "=": c = l == r
            elif op == "<": c = l < r
            elif op == ">": c = l > r
            elif op == "<>": c = l != r
            elif op == "<=": c = l <= r
            elif op == ">=": c = l >= r
            return -1.0 if c else 0.0
        if k == "fn": return self.builtin(e[1], e[2], n, s)
        if k == "idx":
            name = e[1]
            vals = [self.ev(a, n + i, s) for i, a in enumerate(e[2])]
            if self.kinds.get(name, "U") == "U": self.kinds[name] = "A"
            if self.kinds[name] == "D": return self.call(name, vals, n, s)
            a, i = self.element(name, self.subs(vals))
            if is_str(name):
                self.ps(s)
                return a.get(i, "")
            self.pn(n)
            return a.get(i, 0.0)
        raise AssertionError(k)

    def builtin(self, name, args, n, s):
        if name in ("INT", "LEN"):
            a = args[0]
            while a[0] == "par": a = a[1]
            # INT(RND) is 0 and LEN(TIME$) is 8, whatever their value
            if a[0] == "fn" and a[1] == ("RND" if name == "INT" else "TIME$"):
                if a[2]: self.ev(a[2][0], n, s)
                if name == "LEN": self.ps(s)
                self.pn(n)
                return 0.0 if name == "INT" else 8.0
        if name == "RND":
            if args:
                self.ev(args[0], n, s)
            self.pn(n)
            if self.rnd is None: raise Discard("RND")
            return self.rnd()
        if name == "TIME$":
            if args: self.ev(args[0], n, s)
            self.ps(s)
            return self.time
        v = []
        for a in args:
            nn = n + sum(1 for x in v if not isinstance(x, str))
            ss = s + sum(1 for x in v if isinstance(x, str))
            v.append(self.ev(a, nn, ss))
        x = v[0]
        if name == "ABS": return abs(x)
        if name == "ASC": self.pn(n); return float(ord(x[0])) if x else 0.0
        if name == "ATN": return c_atan(x)
        if name == "CHR$":
            if x != x or x < 0 or x > 255 or c_floor(x) != x: self.fail("invalid character code")
            self.ps(s)
            return chr(int(x)) if x else ""
        if name == "COS": return c_cos(x)
        if name == "EXP": return c_exp(x)
        if name == "INT": return c_floor(x)
        if name == "LEN": self.pn(n); return float(len(x))
        if name == "LOG":
            if x <= 0: self.fail("invalid logarithm")
            return c_log(x)
        if name == "SGN": return -1.0 if x < 0 else 1.0 if x > 0 else x
        if name == "SIN": return c_sin(x)
        if name == "SQR": return c_sqrt(x)
        if name == "TAN": return c_tan(x)
        if name == "STR$": self.ps(s); return g(x)
        if name == "VAL":
            self.pn(n)
            c = convert(x)
            if c is None or c[1] != "": self.fail("invalid number")
            return c[0]
        if name == "LEFT$": return x[:self.uns(v[1])]
        if name == "RIGHT$":
            k = self.uns(v[1])
            return x[len(x) - min(k, len(x)):]
        if name == "MID$":
            c = self.uns(v[2]); p = self.uns(v[1])
            if p < 1 or p > len(x): self.fail("string index out of range")
            return x[p - 1:p - 1 + c]
        raise AssertionError(name)

    def call(self, name, vals, n, s):
        d = self.defs.get(name)
        if d is None: self.fail("function not defined")
        if self.infn: self.fail("nested call")
        if len(vals) != 1: self.fail("number of parameters")
        param, body, where = d
        self.infn = True; self.fnwhere = where
        old = self.num.get(param)
        self.num[param] = vals[0]
        def restore():
            if old is None: self.num.pop(param, None)
            else: self.num[param] = old
        try:
            v = self.ev(body, n, s)
        except BasicError:
            restore()
            raise      # infn remains set, for where() to name the DEF line
        restore()
        self.infn = False
        return v

    # --- arrays
    def subs(self, vals):
        if len(vals) > 2: self.fail("too many dimensions")
        for x in reversed(vals):
            if x != x or x < 0 or c_floor(x) != x or x > 4294967295: self.fail("bad subscript")
        return tuple(int(x) for x in vals)

    def dim(self, name, maxes):
        n = 1
        for m in maxes: n *= m + 1
        if n > MAXELEM: self.fail("array too large")
        self.arr[name] = (maxes, {})

    def element(self, name, idx):
        if name not in self.arr: self.dim(name, tuple(max(10, i) for i in idx))
        maxes, a = self.arr[name]
        if len(idx) != len(maxes) or any(i > m for i, m in zip(idx, maxes)): self.fail("subscript out of range")
        return a, idx

    def index_values(self, lv, n):
        if lv[0] != "idx": return None
        return [self.ev(a, n + i, 0) for i, a in enumerate(lv[2])]

    def store(self, lv, idx, v):
        if lv[0] == "var":
            if is_str(lv[1]): self.str[lv[1]] = v
            else: self.num[lv[1]] = v
        else:
            # the name is an array here: register() saw to it
            a, i = self.element(lv[1], self.subs(idx))
            a[i] = v

    # --- statements: return 'jumped' when pc is set, 'stop' to stop
    def x_let(self, st):
        lv = st[1]
        idx = self.index_values(lv, 0)
        v = self.ev(st[2], len(idx) if idx else 0, 0)
        self.store(lv, idx, v)

    def x_for(self, st):
        a = self.ev(st[2], 0, 0); b = self.ev(st[3], 1, 0)
        c = self.ev(st[4], 2, 0) if st[4] is not None else 1.0
        self.pn(2)
        v = st[1]
        old = [f for f in self.fors if f["var"] == v]
        if old: self.fors.remove(old[0]); self.features.add("refor")
        elif len(self.fors) >= FOR_DEPTH: self.features.add("forfull"); self.fail("FOR is nested too deeply")
        self.nfor += 1
        self.fors.append(dict(var=v, step=c, limit=b, code=self.code, pc=self.pc, line=self.line))
        self.num[v] = a

    def x_next(self, st):
        if not self.fors: self.fail("NEXT without FOR")
        if st[1]:
            f = [f for f in self.fors if f["var"] == st[1][0]]
            if not f: self.fail("NEXT without FOR")
            f = f[0]
            if f is not self.fors[-1]: self.features.add("nextouter")
        else: f = self.fors[-1]
        x = self.num.get(f["var"], 0.0) + f["step"]
        if f["step"] > 0 and x > f["limit"] or f["step"] < 0 and x < f["limit"]:
            self.fors = [q for q in self.fors if q is not f]
        else:
            self.num[f["var"]] = x
            self.niter += 1
            self.code = f["code"]; self.line = f["line"]; self.pc = f["pc"] + 1
            return "jumped"

    def x_goto(self, st):
        self.jump(st[1])
        return "jumped"

    def gosub(self, n, ret):
        if self.prog is None or n not in self.prog.index: self.features.add("noline"); self.fail("line not found")
        if len(self.rets) >= GOSUB_DEPTH: self.features.add("gosubfull"); self.fail("GOSUB is nested too deeply")
        self.rets.append((self.code, ret, self.line))
        self.jump(n)
        return "jumped"

    def x_gosub(self, st): return self.gosub(st[1], self.pc + 1)

    def x_return(self, st):
        if not self.rets: self.features.add("noreturn"); self.fail("RETURN without GOSUB")
        self.code, self.pc, self.line = self.rets.pop()
        return "jumped"

    def x_on(self, st):
        x = self.ev(st[1], 0, 0)
        if x != x or c_floor(x) != x: self.fail("ON value is invalid")
        if x < 1 or x > len(st[3]): self.features.add("onfall"); return
        n = st[3][int(x) - 1]
        if st[2] == "GOSUB": return self.gosub(n, self.pc + 1)
        self.jump(n)
        return "jumped"

    def data_source(self):
        if self.code.immediate and self.code.has_data: return self.code
        return self.prog

    def x_read1(self, st):
        lv = st[1]
        idx = self.index_values(lv, 0)
        src = self.data_source()
        imm = src is self.code and src.immediate
        if src is None or not src.has_data: self.fail("no DATA")
        k = self.idata if imm else self.pdata
        if k >= len(src.data): self.features.add("outofdata"); self.fail("out of DATA")
        item = src.data[k][0]
        if imm: self.idata = k + 1
        else: self.pdata = k + 1
        if is_str(lv[1]): self.store(lv, idx, item)
        else:
            c = convert(item)
            if c is None or c[1] != "": self.fail("numeric data expected")
            self.store(lv, idx, c[0])

    def x_restore(self, st):
        if st[1] is None: self.pdata = self.idata = 0
        else:
            if self.prog is None or st[1] not in self.prog.index: self.fail("line not found")
            pos = self.prog.index[st[1]]
            self.pdata = sum(1 for _, p in self.prog.data if p < pos)

    def x_dim1(self, st):
        vals = [self.ev(e, i, 0) for i, e in enumerate(st[2])]
        self.dim(st[1], self.subs(vals))

    def x_def(self, st):
        if self.code.immediate: where = None
        else: where = self.code.lines[self.line]
        self.defs[st[1]] = (st[2], st[3], where)

    def x_lineinput(self, st):
        self.put((st[1] or "") + "? ")
        while not self.readbuf(): self.put((st[1] or "") + "? ")
        lv = st[3]
        idx = self.index_values(lv, 0)
        v = self.inbuf.split("\n")[0]
        self.store(lv, idx, v)

    def x_stop(self, st): return "stop"
    def x_end(self, st):
        self.pc = len(self.code.ops)
        return "jumped"
    def x_clear(self, st): self.clear_values()
    def x_cls(self, st):
        self.system.append([self.length(), "clear"])
        if self.sysret: self.put("\n" + "-" * 64 + "\n\n")
        self.col = 1
    def x_randomize(self, st):
        if st[1] is not None: self.uns(self.ev(st[1], 0, 0))

    def output(self): return "".join(self.out)
    def length(self): return sum(map(len, self.out))
