"""The stored program: histories of typed, replaced and deleted lines, NEW and LIST ranges, against a sorted map."""
import random
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=100000, thorough=400000)
RULE = "at least 4 edits, among them an insertion before an existing line, a replacement or a deletion, and a LIST after them"
ANY = "".join(chr(c) for c in range(32, 127)) + "\t\x7f\x80\xe9\xff\x01\r"

def body(ch, letters_first=False):
    k = ch.upto(6)
    if k == 0: t = strtext(ch, 60) or "x"
    elif k == 1: t = "PRINT " + '"%s"' % strtext(ch, 10).replace('"', "")
    elif k == 2: t = "  indented"
    elif k == 3: t = "".join(ANY[ch.upto(len(ANY) - 1)] for _ in range(ch.int(1, 12)))
    elif k == 4: t = ch.pick(["REM", "GOTO 10", "10", "20 PRINT", "-5", " ", ":", "print a", "X=1 ", "DATA a,  b ", "\tx", "LIST", "0", "."])
    elif k == 5: t = "L" * ch.int(100, 119)
    else: t = "R%d" % ch.int(0, 99)
    return t

def gen(ch):
    s = Session()
    st = dict(edits=0, rep=0, dele=0, ins=0, lists=0, paged=0)
    style = ch.upto(3)
    def number():
        if style == 0: return ch.int(1, 30)
        if style == 1: return 10 * ch.int(1, 30)
        if style == 2: return ch.pick([1, 2, 9, 10, 99, 100, 127, 128, 129, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 100000, 4294967294, ch.int(1, 70000)])
        return ch.int(1, 65535)
    def enter(n, t):
        st["edits"] += 1
        if n in s.stored: st["rep"] += 1
        elif s.stored and n < max(s.stored): st["ins"] += 1
        d = str(n)
        if ch is not None and ch.chance(12): d = ch.pick(["0", "00", " ", "\t"]) + d
        sep = " "
        if t[0] not in "0123456789 " and ch.chance(20): sep = ""
        s.line(n, t, d + sep + t)
    def bulk(k):
        rnd = random.Random(ch.upto(1 << 16))
        how = ch.upto(3)
        ns = rnd.sample(range(1, 60000), k) if style > 1 else list(range(10, 10 * k + 10, 10))
        if how == 0: ns.sort()
        elif how == 1: ns.sort(reverse=True)
        else: rnd.shuffle(ns)
        for n in ns:
            s.line(n, "L%d" % n)
            st["edits"] += 1
    if ch.chance(12): bulk(ch.magic(400, 1600) if ch.chance(5) else ch.magic(20, 400) if ch.chance(25) else ch.pick([20, 24, 60, 120, 127, 128, 129, 200, 256, 257, 300]))
    def rng():
        def num():
            if s.stored and ch.chance(70):
                return max(0, ch.pick(sorted(s.stored)) + ch.pick([0, 0, -1, 1]))
            return number()
        k = ch.upto(4)
        a = b = None
        if k == 0: typed = ""
        elif k == 1: a = num(); typed = " %d" % a
        elif k == 2: a = num(); b = num(); typed = " %d-%d" % (a, b)
        elif k == 3: b = num(); typed = "-%d" % b
        else: a = num(); typed = " %d-" % a
        if ch.chance(40):
            typed = typed.replace("-", ch.pick([" -", "- ", " - "]))
            typed = ch.pick(["", " ", "  "]) + typed.strip() + ch.pick(["", " "])
        return a, b, typed
    def lst(full=False):
        st["lists"] += 1
        a, b, typed = (None, None, "") if full else rng()
        w = ch.pick(["LIST", "LIST", "list", "List"])
        if not full and ch.chance(15):
            # page by page: a line is awaited after each page
            st["paged"] += 1
            s.type(w + typed + ch.pick([" P", "P", " p", "p "]) if typed and typed[-1] not in "P" else w + " P")
            if not typed: a = b = None
            src = sorted(s.stored.items())
            count = 0
            for i, (n, t) in enumerate(src):
                if n >= (a or 0) and (b is None or n <= b):
                    count += 1
                    s.vm.put("%d %s" % (n, t))
                    if count % 24 == 23 and i + 1 < len(src): s.stdin.append(ch.pick(["\n", "\n", "x\n", "10 zzz\n", "20 y" + "z" * 300 + "10\n"]))
                    else: s.vm.put("\n")
            return
        s.list(a, b, w + typed)
    for _ in range(ch.size(2, 30)):
        k = ch.weighted([(8, "line"), (3, "del"), (3, "list"), (1, "new"), (1, "del0"), (1, "other"), (1, "rep")])
        if k == "line": enter(number(), body(ch))
        elif k == "rep" and s.stored: enter(ch.pick(sorted(s.stored)), body(ch))
        elif k == "del" and s.stored:
            st["dele"] += 1; st["edits"] += 1
            s.delete(ch.pick(sorted(s.stored)))
        elif k == "del0": s.delete(number())
        elif k == "list": lst()
        elif k == "new" and ch.chance(25): s.new(ch.pick(["NEW", "new", "New "]))
        elif k == "other":
            # commands that leave the program as it is
            q = ch.upto(5)
            if q == 5: s.overlong(ch.pick(["", "%d " % number(), "NEW", "%d" % number(), "LIST"]) + (ch.pick(["x", " ", "7 ", "\t"]) * 300)[:ch.pick([127, 128, 253, 254, 255, ch.int(127, 290)])] + ch.pick(["", "10", "NEW", " 10 x"]))
            elif q == 0: s.type("  ")
            elif q == 1: s.save("f")
            elif q == 2: s.type("COMPILE") if not s.have else s.compile()
            elif q == 3: s.type(ch.pick(["0 x", "0", "4294967295 x", "99999999999 y"])); s.say("Invalid line number")
            else: s.type("CONT"); s.say("Cannot continue")
    lst()
    lst(True)
    run = s.finish()
    return dict(runs=[run], n=len(s.stored), **st)

def nontrivial(c): return c["edits"] >= 4 and c["ins"] + c["rep"] + c["dele"] >= 1
def classes(c): return ["lines %s" % ("<24" if c["n"] < 24 else "<128" if c["n"] < 128 else "128+")] + [k for k in ("rep", "dele", "ins", "paged") if c[k]]
