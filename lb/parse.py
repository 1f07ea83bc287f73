"""Reference recogniser of Legacy Basic: text of a line -> abstract syntax, or Bad. Written from the manual's grammar,
independently of the interpreter's parser (which it is compared with by C23)."""
import re
from .lang import KEYWORDS, BUILTIN, UNIMPLEMENTED, is_str, strtod, type_of as _type

KW = set(KEYWORDS)
RES_FN = set(BUILTIN) | set(UNIMPLEMENTED)
ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
DIGIT = "0123456789"
ALNUM = ALPHA + DIGIT
MAXWORD = 128

class Bad(Exception):
    """The line violates the grammar or typing rules."""

def keyword_at(t, i):
    u = t[i:i + 10].upper()
    for k in KEYWORDS_BY_TABLE:
        if u.startswith(k): return k
    return None
KEYWORDS_BY_TABLE = sorted(KEYWORDS)   # alphabetical, first match wins (no keyword but GOSUB/GOTO.. shares a prefix ambiguity)

class Lexer:
    def __init__(self, text, crunch=False):
        self.t = text; self.i = 0; self.crunch = crunch
    def _valid(self, a, b):
        for c in self.t[a:b]:
            if ord(c) >= 127: raise Bad("invalid character")
    def next(self):
        """(kind, value): kinds kw id num str op end"""
        t, n = self.t, len(self.t)
        while self.i < n and t[self.i] in " \t\r": self.i += 1
        i = self.i
        if i >= n: return ("end", None)
        c = t[i]
        if ord(c) >= 127: raise Bad("invalid character")
        j = i
        if c in ALPHA:
            if self.crunch:
                k = keyword_at(t, i)
                if k:
                    self.i = i + len(k)
                    return ("kw", k)
                j = i + 1
                while j < n and t[j] in ALNUM and not (t[j] in ALPHA and keyword_at(t, j)): j += 1
                kwhere = j < n and t[j] in ALPHA
                if not kwhere and j < n and t[j] == "$": j += 1
                elif not kwhere and j < n: self._valid(j, j + 1)
                w = t[i:j]
                if len(w.rstrip("$")) > MAXWORD - 2: raise Bad("name too long")
                self.i = j
                return ("id", w.upper())
            while j < n and t[j] in ALNUM: j += 1
            if j < n: self._valid(j, j + 1)
            if j < n and t[j] == "$": j += 1
            w = t[i:j].upper()
            if len(w.rstrip("$")) > MAXWORD - 2: raise Bad("name too long")
            self.i = j
            return ("kw", w) if w in KW else ("id", w)
        if c in DIGIT or c == ".":
            while j < n and t[j] in DIGIT: j += 1
            if j < n and t[j] == ".":
                j += 1
                while j < n and t[j] in DIGIT: j += 1
            if j < n and t[j] in "eE" and not (self.crunch and keyword_at(t, j)):
                j += 1
                if j < n and t[j] in "+-": j += 1
                while j < n and t[j] in DIGIT: j += 1
            if j < n: self._valid(j, j + 1)
            w = t[i:j]
            if len(w) > MAXWORD - 1: raise Bad("number too long")
            self.i = j
            v, used = strtod(w)
            if used != len(w): raise Bad("invalid number")
            return ("num", w)
        if c == '"':
            j = t.find('"', i + 1)
            if j < 0: raise Bad("unterminated string")
            self._valid(i, j)
            if j - i - 1 > MAXWORD - 1: raise Bad("string too long")
            self.i = j + 1
            return ("str", t[i + 1:j])
        two = t[i:i + 2]
        if two in ("<>", "<=", ">="):
            self.i = i + 2
            return ("op", two)
        if c in "<>" and i + 1 < n: self._valid(i + 1, i + 2)
        self.i = i + 1
        return ("op", c)
    def datum(self):
        t, n = self.t, len(self.t)
        while self.i < n and t[self.i] in " \t": self.i += 1
        i = self.i
        if i < n and t[i] == '"':
            j = t.find('"', i + 1)
            if j < 0: raise Bad("unterminated string")
            self._valid(i, j)
            if j - i - 1 > MAXWORD - 1: raise Bad("string too long")
            self.i = j + 1
            return (t[i:j + 1], t[i + 1:j])
        j = i
        while j < n and t[j] not in '",:': j += 1
        self._valid(i, min(j + 1, n))
        if j - i > MAXWORD - 1: raise Bad("data too long")
        self.i = j
        return (t[i:j], t[i:j].rstrip(" \t"))

RELOPS = ("=", "<", ">", "<>", "<=", ">=")

class Parser:
    """kinds: parenthesised name -> U (used), A (array), D (function); updated."""
    def __init__(self, text, kinds, crunch=False):
        self.lx = Lexer(text, crunch); self.kinds = kinds
        self.adv()
    def adv(self): self.tk = self.lx.next()
    def is_kw(self, k): return self.tk == ("kw", k)
    def is_op(self, o): return self.tk == ("op", o)
    def op(self, o):
        if not self.is_op(o): raise Bad("expected " + o)
        self.adv()
    def kw(self, k):
        if not self.is_kw(k): raise Bad("expected " + k)
        self.adv()

    def line(self):
        r = self.statements(top=True)
        if self.tk[0] != "end": raise Bad("unexpected text")
        return r

    # A line is a sequence of statements; IF takes the rest of the line.
    def statements(self, top=False):
        out = []
        while True:
            s = self.statement()
            out.append(s)
            if s[0] == "if": return out     # consumed the rest of the line
            if self.is_op(":"): self.adv(); continue
            return out

    def eos(self): return self.tk[0] == "end" or self.is_op(":") or self.is_kw("ELSE")

    def statement(self):
        k, v = self.tk
        if k == "end" or self.is_op(":"): return ("empty",)
        if k == "id": return self.assignment(False)
        if self.is_op("?"):
            self.adv(); return self.print_(True)
        if k != "kw": raise Bad("statement expected")
        f = getattr(self, "s_" + v.lower(), None)
        if f is None: raise Bad("statement expected")
        return f()

    def s_clear(self): self.adv(); return ("clear",)
    def s_cls(self): self.adv(); return ("cls",)
    def s_end(self): self.adv(); return ("end",)
    def s_return(self): self.adv(); return ("return",)
    def s_stop(self): self.adv(); return ("stop",)
    def s_rem(self):
        t = self.lx.t[self.lx.i:]
        self.lx.i = len(self.lx.t); self.tk = ("end", None)
        return ("rem", t)
    def s_data(self):
        items = [self.lx.datum()]
        self.adv()
        while self.is_op(","):
            items.append(self.lx.datum())
            self.adv()
        return ("data", items)
    def s_read(self):
        self.adv()
        lvs = [self.lvalue()]
        while self.is_op(","): self.adv(); lvs.append(self.lvalue())
        return ("read", lvs)
    def s_restore(self):
        self.adv()
        return ("restore", self.lineno() if self.tk[0] == "num" else None)
    def s_def(self):
        self.adv()
        k, name = self.tk
        if k != "id": raise Bad("name expected")
        if name in RES_FN: raise Bad("built-in")
        if self.kinds.get(name, "U") == "A": raise Bad("name of an array")
        self.kinds[name] = "D"
        self.adv()
        self.op("(")
        p = self.numvar()
        self.op(")"); self.op("=")
        e = self.expr()
        if _type(e) != ("s" if is_str(name) else "n"): raise Bad("type")
        return ("def", name, p, e)
    def s_dim(self):
        self.adv()
        arrs = []
        while True:
            v = self.lvalue()
            if v[0] != "idx": raise Bad("dimensions expected")
            arrs.append((v[1], list(v[2])))
            if not self.is_op(","): break
            self.adv()
        return ("dim", arrs)
    def s_for(self):
        self.adv()
        v = self.numvar()
        self.op("=")
        a = self.nexpr()
        self.kw("TO")
        b = self.nexpr()
        c = None
        if self.is_kw("STEP"): self.adv(); c = self.nexpr()
        return ("for", v, a, b, c)
    def s_next(self):
        self.adv()
        vs = []
        if self.tk[0] == "id":
            vs.append(self.numvar())
            while self.is_op(","): self.adv(); vs.append(self.numvar())
        return ("next", tuple(vs))
    def s_gosub(self): self.adv(); return ("gosub", self.lineno())
    def s_goto(self): self.adv(); return ("goto", self.lineno())
    def s_on(self):
        self.adv()
        e = self.nexpr()
        if not (self.is_kw("GOTO") or self.is_kw("GOSUB")): raise Bad("GOTO or GOSUB expected")
        how = self.tk[1]
        self.adv()
        ns = [self.lineno()]
        while self.is_op(","): self.adv(); ns.append(self.lineno())
        return ("on", e, how, ns)
    def s_if(self):
        self.adv()
        c = self.nexpr()
        self.kw("THEN")
        if self.tk[0] == "num":
            then = ("line", self.lineno())
            els = None; dead = None
            if self.is_kw("ELSE"):
                self.adv()
                els = ("line", self.lineno())
                if self.is_kw("ELSE"): raise Bad("unexpected ELSE")
            if self.is_op(":"):
                self.adv()
                dead = self.statements()
                if self.is_kw("ELSE"): raise Bad("unexpected ELSE")
            elif self.tk[0] != "end" and not self.is_kw("ELSE"): raise Bad("unexpected text")
            return ("if", c, then, els, dead)
        # the statement after THEN may be empty
        then = ("stmts", [("empty",)] if self.is_kw("ELSE") else self.some())
        els = None
        if self.is_kw("ELSE"):
            # an inner IF has had its chance of this ELSE
            if contains_if(then[1]): raise Bad("unexpected ELSE")
            self.adv()
            els = ("stmts", self.some())
            if self.is_kw("ELSE"): raise Bad("unexpected ELSE")
        return ("if", c, then, els)
    def some(self):
        """Statements after THEN or ELSE, possibly empty."""
        return self.statements()
    def s_input(self):
        self.adv()
        p, sep = self.prompt()
        lvs = [self.lvalue()]
        while self.is_op(","): self.adv(); lvs.append(self.lvalue())
        return ("input", p, sep, lvs)
    def s_line(self):
        self.adv(); self.kw("INPUT")
        p, sep = self.prompt()
        v = self.lvalue()
        if not is_str(v[1]): raise Bad("string expected")
        return ("lineinput", p, sep, v)
    def prompt(self):
        if self.tk[0] != "str": return None, None
        p = self.tk[1]; sep = ""
        self.adv()
        if self.is_op(";") or self.is_op(","):
            sep = self.tk[1]; self.adv()
        return p, sep
    def s_let(self): self.adv(); return self.assignment(True)
    def assignment(self, let):
        v = self.lvalue()
        self.op("=")
        e = self.expr()
        if _type(e) != ("s" if is_str(v[1]) else "n"): raise Bad("type mismatch")
        return ("let", v, e, let)
    def s_print(self): self.adv(); return self.print_(False)
    def print_(self, q):
        items = []
        while not self.eos():
            if self.tk[0] == "id" and self.tk[1] in ("SPC", "TAB"):
                k = self.tk[1].lower()
                self.adv(); self.op("(")
                e = self.nexpr()
                self.op(")")
                items.append((k, e))
            elif self.is_op(";") or self.is_op(","):
                items.append((self.tk[1],)); self.adv()
            else: items.append(("e", self.expr()))
        return ("print", items, q)
    def s_randomize(self):
        self.adv()
        return ("randomize", None if self.eos() else self.nexpr())

    def lineno(self):
        if self.tk[0] != "num": raise Bad("line number expected")
        x = strtod(self.tk[1])[0]
        if not (0 < x <= 65535 and x == int(x)): raise Bad("line number expected")
        self.adv()
        return int(x)

    def ident(self, kind):
        """A simple or parenthesised name; kind is what a parenthesised one must be (U: either)."""
        k, name = self.tk
        if k != "id": raise Bad("name expected")
        self.adv()
        if not self.is_op("("):
            if name in RES_FN: raise Bad("built-in")
            return ("var", name)
        es = []
        while True:
            self.adv()
            es.append(self.nexpr())
            if not self.is_op(","): break
        self.op(")")
        if name in RES_FN: raise Bad("built-in")
        have = self.kinds.get(name)
        if have is None or have == "U": self.kinds[name] = kind
        elif kind != "U" and have != kind: raise Bad("used as another kind of name")
        return ("idx", name, tuple(es))
    def lvalue(self): return self.ident("A")
    def numvar(self):
        v = self.ident("U")
        if v[0] != "var" or is_str(v[1]): raise Bad("numeric variable expected")
        return v[1]

    def nexpr(self):
        e = self.expr()
        if _type(e) != "n": raise Bad("numeric expression expected")
        return e
    def logical(self, word, sub):
        l = sub()
        while self.is_kw(word):
            self.adv()
            r = sub()
            if _type(l) != "n" or _type(r) != "n": raise Bad("type")
            l = ("bin", word, l, r)
        return l
    def expr(self): return self.logical("OR", lambda: self.logical("AND", self.not_))
    def not_(self):
        if self.is_kw("NOT"):
            self.adv()
            e = self.not_()
            if _type(e) != "n": raise Bad("type")
            return ("not", e)
        l = self.add()
        if self.tk[0] == "op" and self.tk[1] in RELOPS:
            o = self.tk[1]
            self.adv()
            r = self.add()
            if _type(l) != _type(r): raise Bad("type mismatch")
            return ("bin", o, l, r)
        return l
    def add(self):
        l = self.mul()
        t = _type(l)
        while self.is_op("+") or self.is_op("-") and t == "n":
            o = self.tk[1]
            self.adv()
            r = self.mul()
            if _type(r) != t: raise Bad("type mismatch")
            l = ("bin", o, l, r)
        return l
    def mul(self):
        l = self.neg()
        while self.is_op("*") or self.is_op("/"):
            o = self.tk[1]
            self.adv()
            r = self.neg()
            if _type(l) != "n" or _type(r) != "n": raise Bad("type")
            l = ("bin", o, l, r)
        return l
    def neg(self):
        if self.is_op("-"):
            self.adv()
            e = self.neg()
            if _type(e) != "n": raise Bad("type")
            return ("neg", e)
        return self.pow()
    def pow(self):
        l = self.primary()
        if _type(l) == "n" and self.is_op("^"):
            self.adv()
            r = self.pow()
            if _type(r) != "n": raise Bad("type")
            return ("bin", "^", l, r)
        return l
    def primary(self):
        k, v = self.tk
        if k == "num": self.adv(); return ("num", v)
        if k == "str": self.adv(); return ("str", v)
        if k == "id":
            if v in UNIMPLEMENTED: raise Bad("not implemented")
            if v in BUILTIN:
                types = BUILTIN[v][0]
                self.adv()
                if types == "d":
                    if not self.is_op("("): return ("fn", v, None)
                    self.adv()
                    es = ()
                    if not self.is_op(")"): es = (self.expr(),)
                    self.op(")")
                    return ("fn", v, es)
                self.op("(")
                es = []
                for i, t in enumerate(types):
                    if i: self.op(",")
                    e = self.expr()
                    if _type(e) != t: raise Bad("type of argument")
                    es.append(e)
                self.op(")")
                return ("fn", v, tuple(es))
            return self.ident("U")
        if self.is_op("("):
            self.adv()
            e = self.expr()
            self.op(")")
            return ("par", e)
        raise Bad("expression expected")

def contains_if(ss):
    return any(s[0] == "if" for s in ss)

def parse_line(text, kinds, crunch=False):
    """Statements of a line, or Bad (kinds unchanged)."""
    saved = dict(kinds)
    try:
        return Parser(text, kinds, crunch).line()
    except Bad:
        kinds.clear(); kinds.update(saved)
        raise

def parse_program(tlines, kinds=None, crunch=False):
    """([(num, stmts)], None) or (None, index of the first bad line)."""
    kinds = {} if kinds is None else kinds
    r = []
    for i, (n, t) in enumerate(tlines):
        try: r.append((n, Parser(t, kinds, crunch).line()))
        except Bad as e: return None, i
    return r, None
