"""Arrays: histories of DIM, stores, fetches and whole-array scans, in sessions and programs, run by the reference interpreter (a map)."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=30000, thorough=400000)
RULE = "at least 6 stores into elements and a fetch or scan after them"

def _families():
    """short names that meet in one chain of the symbol table, with or without the $"""
    r = {}
    L = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    for a in L:
        for b in L + "0123456789":
            for c in ["", "1", "Z", "7", "B"]:
                x = a + b + c
                if not (ok_name(x) and ok_name(x + "$")): continue
                for t in ("", "$"): r.setdefault(hashpjw(x + t) % 293, []).append(x)
    return [v for k, v in sorted(r.items()) if len(set(v)) > 2]
FAMILIES = _families()

class H:
    def __init__(self, ch):
        self.ch = ch
        base = ch.shuffle(["A", "B", "Q1", "XY", "LLL", "M"] if ch.chance(75) else sorted(set(ch.pick(FAMILIES))))[:ch.int(1, 3)]
        self.names = []
        for b in base:
            k = ch.upto(3)
            if k != 1: self.names.append(b)
            if k >= 1: self.names.append(b + "$")
        self.simple = [b for b in base]
        self.shape = {}      # what the arrays are thought to be
        self.past = []       # shapes they had before a CLEAR
        self.count = 0
        self.stores = 0; self.fetches = 0; self.big = 0; self.errs = 0

    def value(self, name):
        self.count += 1
        if is_str(name):
            k = self.ch.upto(9)
            if k == 0: return ("str", "")
            if k == 1: return ("str", "s%d" % self.count + "x" * self.ch.int(20, 80))
            return ("str", "s%d" % self.count)
        return num(self.count) if self.ch.chance(90) else num(self.ch.pick(["0", "1E+30", "2.5", "1E-30"]))

    def extent(self, dims):
        """an index of any magnitude"""
        ch = self.ch
        hi = 30000 if dims == 1 else 900
        if ch.chance(50): return min(hi, ch.magic(0, hi))
        return ch.int(0, ch.pick([100, 300, 1000, hi]))

    def maxes(self):
        ch = self.ch
        k = ch.weighted([(10, 0), (6, 1), (1, 2), (1, 3)])
        if ch.chance(12):
            # any size, near a constant of the sources or of any magnitude
            m = [self.extent(1)] if k != 1 else [self.extent(2), ch.pick([0, 1, 2, 10, ch.int(0, 60)])]
            return m if ch.chance(50) else m[::-1]
        if k == 0: return [ch.pick([0, 1, 2, 3, 9, 10, 11, 12, 20, 40, ch.int(0, 60)])]
        if k == 1: return [ch.pick([0, 1, 2, 5, 9, 10, 11, ch.int(0, 15)]) for _ in range(2)]
        if k == 2:
            return ch.pick([[65535], [65536], [255, 255], [255, 256], [65535, 0], [0, 65535], [65535, 1], [4294967295], [70000], [32767, 1], [1, 32768], [300, 300],
                            [65535, 65535], [4294967295, 4294967295], [4294967295, 0], [1023, 63], [1024, 63]])
        return [ch.int(0, 5) for _ in range(3)]

    def subs(self, name, legal):
        ch = self.ch
        sh = self.shape.get(name)
        if sh is None:
            if ch.chance(50): sh = [10]
            elif ch.chance(70): sh = [10, 10]
            else: return [num(ch.int(0, 14)) for _ in range(ch.int(1, 2))]
            if ch.chance(25):
                # first reference beyond 10
                s = [ch.int(0, 14) for _ in sh] if ch.chance(60) else [self.extent(len(sh))] + [ch.int(0, 14) for _ in sh[1:]]
                if ch.chance(50): s = s[::-1]
                self.shape[name] = [max(10, i) for i in s]
                return [num(x) for x in s]
            self.shape[name] = sh
        r = [ch.pick([0, m, ch.int(0, m), ch.int(0, m)]) for m in sh]
        es = [num(x) for x in r]
        if not legal:
            i = ch.upto(len(es) - 1)
            k = ch.upto(8) if ch.chance(70) else 0
            if k == 0: es[i] = num(sh[i] + 1)
            elif k == 1: es[i] = ("neg", num(1))
            elif k == 2: es[i] = num("%d.5" % r[i])
            elif k == 3: es = es + [num(0)]
            elif k == 4 and len(es) == 2: es = es[:1]
            elif k == 5: es[i] = num(sh[i] + ch.int(1, 300))
            elif k == 6: es[i] = num(r[i] + 65536) if ch.chance(50) else num(r[i] + 4294967296)
            elif k == 7 and len(es) == 2: es = es[::-1]
            else: es[i] = op("-", num(0), num(ch.int(1, 70000)))
        elif ch.chance(15):
            i = ch.upto(len(es) - 1)
            es[i] = op("+", num(r[i] // 2), num(r[i] - r[i] // 2)) if ch.chance(50) else op("-", num(r[i] + 3), num(3))
        return es

    def stmt(self):
        ch = self.ch
        n = ch.pick(self.names)
        k = ch.weighted([(8, "store"), (4, "fetch"), (2, "dim"), (3, "scan"), (2, "simple"), (2, "bad"), (2, "fill"), (1, "move"), (1, "clear"), (1, "again")])
        if k == "store" or k == "bad":
            el = ("idx", n, tuple(self.subs(n, k == "store")))
            if k == "store": self.stores += 1
            if k == "bad" and ch.chance(40): return [("print", [("e", el)], False)]
            return [("let", el, self.value(n), False)]
        if k == "fetch":
            self.fetches += 1
            return [("print", [("e", ("idx", n, tuple(self.subs(n, True)))), (";",), ("e", ("idx", n, tuple(self.subs(n, True))))], False)]
        if k == "dim":
            ds = []
            for _ in range(1 if ch.chance(70) else 2):
                m = ch.pick(self.past) if self.past and ch.chance(60) else self.maxes()
                nn = ch.pick(self.names)
                size = 1
                for x in m: size *= x + 1
                if len(m) <= 2 and size <= 65536: self.shape[nn] = m
                if size > 1000: self.big += 1
                ds.append((nn, [num(x) for x in m]))
            return [("dim", ds)]
        if k == "scan":
            self.fetches += 1
            return self.scan(n)
        if k == "simple":
            b = ch.pick(self.simple)
            v = b + ch.pick(["", "$"])
            if ch.chance(50): return [("let", var(v), self.value(v), False)]
            return [("print", [("e", var(b)), (";",), ("e", var(b + "$"))], False)]
        if k == "again":
            # large arrays filled, given up, and dimensioned again in the same place
            self.big += 1; self.stores += 3; self.fetches += 1
            self.shape = {}
            m = [ch.int(50, ch.pick([300, 3000, 15000]))] if ch.chance(70) else [ch.int(5, 60), ch.int(5, 60)]
            r = [("clear",), ("dim", [(n, [num(x) for x in m])])]
            st = [max(1, x // 7) for x in m]
            v = ["I8", "J8"]
            def every(s): return [("for", v[i], num(0), num(x), num(st[i])) for i, x in enumerate(m)] + [s] + [("next", ())] * len(m)
            el = ("idx", n, tuple(var(v[i]) for i in range(len(m))))
            r += [None] + every(("let", el, self.value(n), False))
            r += [None, ("clear",)]
            m2 = m if ch.chance(60) else [max(1, x - ch.int(0, x // 3)) for x in m]
            self.shape[n] = m2
            r += [("dim", [(n, [num(x) for x in m2])]), None]
            m = m2
            return r + every(("print", [("e", el), (";",)], False))
        if k == "fill":
            sh = self.shape.get(n)
            if not sh or len(sh) > 2: return [("let", ("idx", n, tuple(self.subs(n, True))), self.value(n), False)]
            self.stores += 3
            v = ["I8", "J8"]
            x = op("+", op("*", var("I8"), num(100)), var("J8") if len(sh) == 2 else num(7))
            if is_str(n): x = fn("STR$", x)
            st = self.strides(sh)
            r = [("for", v[i], num(0), num(m), None if st[i] == 1 else num(st[i])) for i, m in enumerate(sh)]
            r.append(("let", ("idx", n, tuple(var(v[i]) for i in range(len(sh)))), x, False))
            return r + [("next", ())] * len(sh)
        if k == "move":
            m = [x for x in self.names if is_str(x) == is_str(n)]
            a = ch.pick(m)
            return [("let", ("idx", n, tuple(self.subs(n, True))), ("idx", a, tuple(self.subs(a, True))), False)]
        if ch.chance(30):
            self.past = [m for m in self.shape.values() if len(m) <= 2]
            self.shape = {}
            return [("clear",)]
        return [("print", [("e", ("str", "-"))], False)]

    def strides(self, sh):
        """large arrays are visited every so many elements, mostly the same ones"""
        if len(sh) == 1 and sh[0] > 400 or len(sh) == 2 and (sh[0] + 1) * (sh[1] + 1) > 400:
            return [max(1, m // (7 if self.ch.chance(70) else self.ch.int(5, 17))) for m in sh]
        return [1] * len(sh)

    def scan(self, n):
        sh = self.shape.get(n, [10])
        if len(sh) > 2: sh = [10]
        v = ["I8", "J8"]
        st = self.strides(sh)
        r = [("for", v[i], num(0), num(m), None if st[i] == 1 else num(st[i])) for i, m in enumerate(sh)]
        r.append(("print", [("e", ("idx", n, tuple(var(v[i]) for i in range(len(sh))))), (";",)], False))
        return r + [("next", ())] * len(sh)

def gen(ch):
    h = H(ch)
    n = ch.size(4, 26)
    if ch.chance(60):
        s = Session(max_steps=12000)
        for _ in range(n):
            part = []
            for x in h.stmt() + [None]:
                if x: part.append(x)
                else: s.stmts(part); part = []
        for a in h.names:
            s.stmts(h.scan(a))
        s.stmts([("print", [x for b in h.simple for x in (("e", var(b)), (";",), ("e", var(b + "$")))], False)])
        run = s.finish(); vm = s.vm
    else:
        lines = []
        for i in range(n): lines.append((10 * (i + 1), [x for x in h.stmt() if x]))
        for a in h.names: lines.append((10 * (len(lines) + 1), h.scan(a)))
        # INPUT and READ into elements
        ints = []
        if ch.chance(30):
            a = ch.pick(h.names)
            lines.insert(ch.upto(len(lines) - 1), (0, [(ch.pick(["read", "inp"]), [("idx", a, tuple(h.subs(a, True))) for _ in range(2)])]))
            lines = [(10 * (i + 1), ss) for i, (_, ss) in enumerate(lines)]
            for i, (nn, ss) in enumerate(lines):
                if ss[0][0] == "inp": lines[i] = (nn, [("input", None, None, ss[0][1])])
            lines.append((10 * (len(lines) + 1), [("data", [("31", "31"), ("32", "32")])]))
        run, vm = run_lines(lines, replies=lambda: "41,42", max_steps=12000, ctx=ch)
    return dict(runs=[run], stores=h.stores, fetches=h.fetches, big=h.big, errs=len(run["errors"]))

def nontrivial(c): return c["stores"] >= 6 and c["fetches"] >= 1
def classes(c): return ["stores %d+" % (c["stores"] // 5 * 5), "large arrays" if c["big"] else "small arrays", "errors" if c["errs"] else "no errors"]
