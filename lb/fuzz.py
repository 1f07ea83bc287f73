"""Text-level generators and mutations for the fuzzing checks (C13, C14, C23)."""
from .lang import *
from .gen import *
from . import parse
from . import dict as D

WORDS = KEYWORDS + sorted(BUILTIN) + list(UNIMPLEMENTED) + ["SPC", "TAB"]
OPS = ["+", "-", "*", "/", "^", "=", "<", ">", "<>", "<=", ">=", "(", ")", ",", ";", ":", "?", "$", '"', "&", "!", "#", "%", "@", "[", "'", "\\", "_"]

def token(ch):
    k = ch.weighted([(8, "w"), (6, "n"), (6, "d"), (8, "o"), (3, "s"), (1, "x")])
    if k == "w": return ch.pick(WORDS)
    if k == "n":
        n = ch.pick(["A", "B", "X", "I", "N1", "FNA", "ABC"])
        return n + ("$" if ch.chance(30) else "")
    if k == "d":
        return ch.pick(["0", "1", "10", "20", "30", "2", "100", "65535", "65536", "1E5", "1E", ".5", "5.", "1E400", "4294967295", "4294967296", "99999999999", ".", "1.2.3", "1E+2", "1E-2", "255", "256"])
    if k == "x" and ch.chance(60): return ch.pick(D.WORDS + D.CHARS).replace("\n", " ")
    if k == "d" and ch.chance(20): return "%d" % ch.pick(D.NEAR)
    if k == "o": return ch.pick(OPS)
    if k == "s": return '"' + strtext(ch, 10).replace('"', "") + ('"' if ch.chance(85) else "")
    return ch.pick(["\x7f", "\x80", "\xff", "\x01", "\t", "\x1b", "~", "{", "`", "\xe9", "\r", "REM", "DATA"])

def soup(ch, n=12):
    """random tokens, mostly beginning like a statement"""
    r = []
    if ch.chance(70): r.append(ch.pick(KEYWORDS + ["?", "A", "A$", "X(1)"]))
    for _ in range(ch.size(0, n)): r.append(token(ch))
    out = ""
    for t in r:
        if out and not ch.chance(12): out += " "
        out += t
    return out

def split(text):
    """the tokens of a line, loosely"""
    r, i = [], 0
    while i < len(text):
        c = text[i]
        j = i + 1
        if c.isalnum():
            while j < len(text) and text[j].isalnum(): j += 1
            if j < len(text) and text[j] == "$": j += 1
        elif c == '"':
            j = text.find('"', i + 1)
            j = len(text) if j < 0 else j + 1
        elif c in " \t":
            while j < len(text) and text[j] in " \t": j += 1
        elif text[i:j + 1] in ("<>", "<=", ">="): j += 1
        r.append(text[i:j])
        i = j
    return r

def mutate_tokens(ch, text, n=2):
    t = split(text)
    for _ in range(ch.int(1, n)):
        if not t: t = [""]
        i = ch.upto(len(t) - 1)
        k = ch.weighted([(4, "del"), (4, "ins"), (4, "rep"), (2, "dup"), (2, "swap"), (1, "cut"), (1, "rpt")])
        if k == "del": del t[i]
        elif k == "ins": t[i:i] = [" " if ch.chance(60) else "", token(ch), " " if ch.chance(60) else ""]
        elif k == "rep": t[i] = token(ch)
        elif k == "dup": t[i:i] = [t[i]]
        elif k == "swap":
            j = ch.upto(len(t) - 1)
            t[i], t[j] = t[j], t[i]
        elif k == "cut": t = t[:i]
        else: t[i:i] = [t[i]] * ch.pick([3, 9, 17, 40])
    return "".join(t)

def mutate_bytes(ch, text, n=3):
    b = list(text)
    for _ in range(ch.int(1, n)):
        i = ch.upto(max(0, len(b) - 1))
        k = ch.upto(4)
        c = chr(ch.pick([0, 1, 9, 10, 13, 26, 32, 34, 36, 40, 44, 46, 48, 57, 58, 65, 69, 127, 128, 200, 255, ch.int(0, 255)]))
        if k == 0 and b: del b[i]
        elif k == 1: b[i:i] = [c]
        elif k == 2 and b: b[i] = c
        elif k == 3: b[i:i] = [c] * ch.pick([2, 10, 130, 260])
        elif b: b[i:i] = b[i:i + ch.int(1, 20)]
    return "".join(b)

def stress(ch):
    """a line that presses one limit of the implementation"""
    k = ch.upto(29)
    n = ch.magic(1, 120) if ch.chance(20) else ch.pick([1, 2, 7, 8, 9, 10, 15, 16, 17, 18, 30, 60, 110])
    L = ch.int(120, 132) if ch.chance(70) else ch.magic(40, 240) if ch.chance(30) else ch.pick([1, 60, 100, 200, 235])
    v = ch.pick(["A", "1", "X(1)", "A$", '"x"'])
    if k == 0: return "PRINT " + "(" * n + v + ")" * n
    if k == 1: return "PRINT " + "".join("(%s+" % v for _ in range(n)) + v + ")" * n
    if k == 2: return "PRINT " + "-" * n + "1"
    if k == 3: return "PRINT " + "NOT " * n + "1"
    if k == 4: return "PRINT " + "2^" * n + "1"
    if k == 5: return "IF 1 THEN " * n + "PRINT 1"
    if k == 6: return "PRINT " + "ABS(" * n + "1" + ")" * n
    if k == 7: return ":".join(["FOR %s%d=1 TO 1" % ("I", i) for i in range(n)]) + ":NEXT" * ch.upto(n)
    if k == 8: return "DIM A(" + ",".join(["1"] * n) + ")"
    if k == 9: return "PRINT " + ",".join([v] * n)
    if k in (10, 16, 17):
        w = ch.pick("XQ") * L
        if ch.chance(20): w = w[:-1] + "1"
        if ch.chance(45): w += "$"
        return ch.pick(["%s=1", "%s=\"a\"", "PRINT %s", "PRINT %s(1)", "DIM %s(3)", "DEF %s(X)=X", "FOR %s=1 TO 2", "READ %s", "INPUT %s", "NEXT %s", "DEF FNA(%s)=1", "%s(2)=3", "PRINT X%s", "PRINT CHR%s", "%s"]) % w
    if k in (11, 18): return ch.pick(['A$="%s"', 'PRINT "%s"', 'INPUT "%s";A', 'A$="%s', 'DATA "%s"', 'PRINT "x"+"%s"', 'LINE INPUT "%s",A$']) % ("s" * L)
    if k in (12, 19): return "PRINT " + ch.pick(["%s", ".%s", "%s.", "1.%s", "%sE", "%sE5", "1E%s", "%s.5E-1", "0%s", "1E-%s", "%s$", "%sELSE"]) % ("1" * L)
    if k in (13, 20): return "DATA " + ch.pick(["%s", '"%s"', '"%s', "%s,x", "a,%s", "%s  ", "  %s", "%s:PRINT 1", '%s"']) % ("d" * L)
    if k == 14: return "PRINT " + "A(" * n + "1" + ")" * n
    if k == 15: return 'PRINT ' + 'A$+(' * n + 'A$' + ")" * n
    if k == 21: return "DIM " + ch.pick(["A", "A$"]) + "(%s)" % ch.pick(["65535", "65536", "65534", "255,255", "256,255", "255,256", "65535,0", "0,65535", "0,65536", "32767,1", "32768,1", "1,32767", "4294967295", "4294967295,1", "65535,65535", "4294967294", "1E9", "-1", "0,0", "0"])
    if k == 22: return ch.pick(["A(%s)=1", "A$(%s)=\"x\"", "PRINT A(%s)", "READ A(%s)", "INPUT A$(%s)"]) % ch.pick(["65535", "65536", "4294967295", "4294967296", "1E300", "-1", "0,65535", "255,255", "256,256", "11,11", "10,11", "1,2,3", "1E9,1E9", "6000,9", "9,6000", "9,6553"])
    if k == 23: return "FOR Z=1 TO %d:B$=B$+\"%s\":NEXT:PRINT LEN(B$):%s" % (ch.pick([127, 128, 254, 255, 256]), ch.pick(["x", "x", "ab"]), ch.pick(["PRINT B$", "C$=B$+B$", "PRINT LEFT$(B$,255)", "PRINT RIGHT$(B$,255)", "PRINT MID$(B$,1,255)", "PRINT MID$(B$,255,1)", "PRINT VAL(B$)", "PRINT ASC(B$)", "C$=B$:B$=\"\"", "PRINT B$<C$", "DEF FNB$(X)=B$:PRINT FNB$(1)"]))
    if k == 24: return ch.pick(["GOSUB 10", "Z=Z+1:IF Z<20 THEN GOSUB 10", "ON 1 GOSUB 10", "GOSUB 10:GOSUB 20:RETURN", "Z=Z+1:IF Z<9 THEN GOSUB 10 ELSE RETURN"])
    if k == 25: return ch.pick(["PRINT SPC(%s)", "PRINT TAB(%s)", "PRINT CHR$(%s)", "RANDOMIZE %s", "ON %s GOTO 10,20,30", "ON %s GOSUB 10,20", "PRINT LEFT$(A$,%s)", "PRINT MID$(\"abc\",%s,%s)", "PRINT RIGHT$(\"abc\",%s)", "RESTORE %s", "GOTO %s", "PRINT %s AND %s", "PRINT NOT %s"]).replace("%s", ch.pick(["0", "1", "3", "4", "255", "256", "-1", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "1E300", "1E400", ".5"]))
    if k == 26: return ch.pick(["DEF FNA(X)=", "DEF FNA$(X)="]) + ch.pick(["FNA(X)", "FNB(X)", "X", "A$", "LOG(X)", "CHR$(X)", '"q"+A$', "INT(RND*X)"]) + ":" + ch.pick(["PRINT FNA(1)", "PRINT FNA$(1)", "PRINT FNA(1)+FNA(2)", "PRINT FNA(FNA(1))", "PRINT FNA(0)", "CLEAR:PRINT FNA(1)", "PRINT FNA$(300)"])
    if k == 27: return "ON %d %s %s" % (n + ch.pick([-1, 0, 0, 1, 1, 2]), ch.pick(["GOTO", "GOSUB"]), ",".join(ch.pick(["10", "20", "30"]) for _ in range(n)))
    if k == 28: return "READ A$:DATA " + ch.pick(["%s", '"%s"', "%s,x", "a,%s"]) % ("d" * L)
    return "ON X GOTO " + ",".join(ch.pick(["10", "20", "30"]) for _ in range(n))
