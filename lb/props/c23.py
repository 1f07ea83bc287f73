"""Valid, mutated and random lines and programs: an independent recogniser of the grammar decides which are valid and which line is the
first that is not; --parse, a run, COMPILE, RUN, typed programs and immediate statements must all agree with it. Coverage guided."""
from .common import *
from ..fuzz import *
from ..judge import events
from .c13 import verdict, BREAKS
from . import c19

VARIANTS = ["san"]
CASES = dict(quick=20000, thorough=400000)
GUIDED = True
RULE = "at least one line was mutated or random (it may be valid or not), other lines being valid"
ASSUMPTIONS = ["a program that loops for ever is interrupted by a break after 20000 function entries of the interpreter"]

SAME = [("A", "A$"), ("X", "X$"), ("+", "-"), ("+", "="), ("=", "<>"), ("AND", "OR"), ("(", ","), (",", ";"), (";", ":"), ("GOTO", "GOSUB"), ("THEN", "ELSE"), ("TO", "STEP"), ("1", '"1"'), ("10", "1.5"), ("LEN", "CHR$"), ("INT", "STR$"),
        ("PRINT", "?"), ("PRINT", "INPUT"), ("LET", "READ"), ("DIM", "DEF"), ("ABS", "RND"), ("TAB", "SPC"), ("NEXT", "FOR"), (")", "))"), ("(", "(("), ("LEFT$", "MID$"), ("VAL", "SGN"), ("-", "NOT"), ("^", "*"), ("USR", "FIX"), ("TIME$", "INKEY$")]
def near(ch, text):
    """replace a token by one that is nearly right"""
    t = split(text)
    for _ in range(6):
        if not t: break
        i = ch.upto(len(t) - 1)
        u = t[i].upper() if t[i].isascii() else t[i]
        for a, b in SAME:
            if u == a: t[i] = b; return "".join(t)
            if u == b: t[i] = a; return "".join(t)
        if u[:1].isalpha() and u not in WORDS:
            t[i] = u[:-1] if u.endswith("$") else ch.pick([u + "$", u + "(1)", "RND", "LEN", "FOR", u])
            return "".join(t)
        if u[:1] == '"': t[i] = ch.pick(["A", "1", u[:-1], u + u]); return "".join(t)
        if u[:1].isdigit(): t[i] = ch.pick(["A$", '"1"', "0", u + ".5", "-" + u, "65536", u + "E", "(" + u + ")"]); return "".join(t)
    return "".join(t)

TEMPL = ["PRINT A,B$;TAB(3);SPC(A)", "IF A=1 THEN 10 ELSE 20", "IF A$<B$ THEN PRINT 1 ELSE PRINT 2:A=3", "FOR I=1 TO 10 STEP 2", "NEXT I,J", "DIM A(1),B$(2,3)", "DEF FNA(X)=X*2+1", "DEF S$(X)=CHR$(X)+A$", "ON X GOTO 10,20,30", "ON X GOSUB 10,20",
         "READ A,B$,C(1)", "DATA 1,two,\"three\",-4", "RESTORE 10", "INPUT A", "INPUT \"P\";A,B$", "LINE INPUT \"Q\",A$", "LINE INPUT A$", "GOSUB 10", "GOTO 10", "RETURN", "STOP", "END", "CLEAR", "CLS", "RANDOMIZE 5", "RANDOMIZE", "REM x", "LET A=1:B$=\"s\"", "A(1)=2:B$(1,2)=\"t\"",
         "PRINT LEFT$(A$,2)+MID$(A$,1,2)+RIGHT$(A$,1)", "PRINT LEN(A$)+ASC(B$)+VAL(A$)", "PRINT NOT A AND B OR C", "PRINT NOT A", "PRINT RND(A^B)", "PRINT RND(A+B*C);TIME$(A)", "PRINT RND(A=B AND C)", "PRINT RND(-A)", "PRINT RND(LEN(A$)+1)", "PRINT RND(A$)", "X=RND((A-B)/C)", "IF NOT A THEN 10", "X=NOT A$=B$", "PRINT -A^2^B", "PRINT A<B,A$=B$", "PRINT RND;RND(1);TIME$", "X=ABS(INT(SGN(SQR(4))))", "A=FNA(2)+Q(1)", "?A:?:?\"x\"", "IF A THEN IF B THEN 10 ELSE 20", "IF A THEN B=1:GOTO 10", "", "INPUT A(1),B$(1,2),C", "LINE INPUT \"Q\";A$(1)", "LINE INPUT B$(1,2)", "FOR I=A TO B(1) STEP C", "READ A(1),B$(2)", "NEXT", "NEXT I", "DIM A$(5),C(2)"]
ITEMS = {"ON A GOTO ": ["10", "20", "30", "0", "65535"], "ON A GOSUB ": ["10", "20", "40"], "READ ": ["A", "B$", "C(1)", "D$(1,2)"], "INPUT ": ["A", "B$", "C(1)", "D$(1,2)"], 'INPUT "P";': ["A", "B$"], "DIM ": ["A(1)", "B$(2,3)", "C(X)", "D$(4)"], "NEXT ": ["I", "J", "K1"],
         "PRINT ": ["A", "B$", "1", '"x"', "TAB(3)", "SPC(2)"], "DATA ": ["1", "two", '"x"', "-3"], "RESTORE ": ["10"], "PRINT RND(": ["1", "A", "B$"], "PRINT MID$(": ["A$", "1", "2"], "X=Q(": ["1", "A", "B$"], "GOTO ": ["10"], "FOR I=1 TO 2": [" STEP 2", ""], "DEF FNA(": ["X", "X$"]}
STRAY = [",", ";", ":", "(", ")", "=", "1", "A", "A$", "TO", "THEN", "ELSE", "STEP", "AND", "NOT", "+", "-", '"x"', "10", "GOTO", "PRINT", "$", "?", "ON", ", ,", ",1", ",A", ";1", ")+1", "<", "<>", "END"]
def listing(ch):
    """a statement with a list of any length, often with something stray at its end or within it"""
    head = ch.pick(list(ITEMS))
    m = ch.int(1, 4) if ch.chance(50) else ch.int(1, 12)
    sep = ch.pick([",", ",", ";"]) if head == "PRINT " else ","
    it = [ch.pick(ITEMS[head]) for _ in range(m)]
    if ch.chance(25): it[ch.upto(m - 1)] = ch.pick(["", "A", "A$", "1", "10", "A(1", "B$)", '"x', "X+1", "-1"])
    t = head + sep.join(it)
    if head.endswith("(") and ch.chance(80): t += ")" + ("=X" if head[:3] == "DEF" else "")
    if ch.chance(45): t += ch.pick(["", " "]) + ch.pick(STRAY)
    if ch.chance(30): t += ":" + ch.pick(["A=1", "PRINT 2", "", "END"])
    return t

EXPR = {"num", "str", "var", "idx", "fn", "bin", "neg", "not", "par"}
OTHER = [("num", "1"), ("str", "s"), ("var", "A"), ("var", "A$"), ("idx", "Q", (("num", "1"),)), ("idx", "Q$", (("num", "1"),)), ("fn", "LEN", (("var", "A$"),)), ("fn", "CHR$", (("num", "65"),)), ("neg", ("var", "A$")), ("not", ("var", "A$")), ("not", ("str", "x")), ("neg", ("num", "2")),
         ("bin", "+", ("var", "A"), ("var", "A$")), ("bin", "+", ("var", "A$"), ("var", "B$")), ("bin", "=", ("var", "A$"), ("var", "B$")), ("bin", "-", ("var", "A$"), ("var", "B$")), ("bin", "AND", ("var", "A"), ("var", "B$")), ("bin", "OR", ("var", "A$"), ("var", "B")), ("bin", "<", ("var", "A$"), ("num", "1")),
         ("bin", "^", ("var", "A$"), ("num", "2")), ("fn", "TIME$", None), ("fn", "RND", None), ("fn", "STR$", (("var", "A$"),)), ("fn", "ABS", (("var", "A$"),)), ("fn", "ASC", (("num", "1"),)), ("fn", "MID$", (("var", "A$"), ("num", "1"))), ("fn", "LEFT$", (("var", "A$"),)), ("fn", "SIN", (("num", "1"), ("num", "2")))]
def retype(ch, ss):
    """the statements with one expression, anywhere, replaced by another, of either type"""
    sites = []
    def walk(x, path):
        if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in EXPR: sites.append(path)
        if isinstance(x, (tuple, list)):
            for i, y in enumerate(x): walk(y, path + (i,))
    walk(ss, ())
    if not sites: return ss
    at = ch.pick(sites)
    e = ch.pick(OTHER)
    def put(x, path):
        if not path: return e
        r = list(x); r[path[0]] = put(r[path[0]], path[1:])
        return tuple(r) if isinstance(x, tuple) else r
    return put(ss, at)

SHORT = ["A", "A$", "1", "2", "(A)", "A$(1)", "B(1,2)", "PRINT 3", "10", '"x"', "-1", "X+1", "B=2", "GOTO 10"]

def gen(ch):
    crunch = ch.chance(20)
    kind = ch.weighted([(4, "prog"), (4, "templ"), (2, "soup"), (1, "stress")])
    muts = 0
    if kind == "prog":
        lines, b = program(ch, input=True, rnd=True, stop=True, cls=True, risk=6, items=3)
        tl = []
        if not crunch and ch.chance(50):
            i = ch.upto(len(lines) - 1)
            lines[i] = (lines[i][0], retype(ch, lines[i][1])); muts += 1
        for n, ss in lines:
            t = crunched(ss, ch) if crunch else None
            tl.append((n, t if t is not None else text_of(ss, ch if ch.chance(20) else None)))
    else:
        tl = []
        for q in range(ch.size(1, 8)):
            if kind == "templ" and ch.chance(30):
                kk = {}
                t = text_of(retype(ch, parse.parse_line(ch.pick(TEMPL[:-1]) or "PRINT", kk))); muts += 1
            elif kind == "soup": t = soup(ch, 8); muts += 1
            elif kind == "templ" and ch.chance(20): t = listing(ch); muts += 1
            elif kind == "stress" and ch.chance(60): t = stress(ch); muts += 1
            else: t = ch.pick(TEMPL)
            tl.append((10 * (q + 1), t))
    def mut(t):
        nonlocal muts
        muts += 1
        k = ch.weighted([(6, "near"), (4, "tok"), (1, "bytes"), (1, "trunc"), (2, "graft"), (1, "data"), (2, "stray"), (1, "list")])
        if k == "near": return near(ch, t)
        if k == "tok": return mutate_tokens(ch, t, 2)
        if k == "data": # DATA: long items, quotes in them and after them
            it = ch.pick(["", "x" * ch.int(1, 100), "x" * ch.magic(1, 130), "12", "a b"]) + ch.pick(['"', '"q"', '""', ' "q"', '" ', 'y"z', '"q"x', '"q" x', ""])
            return "DATA " + ",".join(it if ch.chance(50) else ch.pick(["1", "two", '"three"', ""]) for _ in range(ch.int(1, 3)))
        if k == "list": return listing(ch)
        if k == "stray": return t + ch.pick(["", " "]) + ch.pick(STRAY)
        if k == "bytes": return mutate_bytes(ch, t, 2)
        if k == "trunc": return t[:ch.upto(len(t))]
        if "ELSE" in t.upper() and ch.chance(60): return t + " ELSE " + ch.pick(["PRINT 3", "10", "A=1", "", "IF A THEN 10", "PRINT 1 ELSE PRINT 2"])
        return t + ch.pick([":", " ELSE ", ",", " THEN ", ";", " "]) + ch.pick(TEMPL + SHORT)
    imm = None
    for _ in range(ch.weighted([(1, 0), (6, 1), (2, 2)])):
        i = ch.upto(len(tl) - 1)
        tl[i] = (tl[i][0], mut(tl[i][1]))
    for n, t in tl:
        if "\0" in t or "\n" in t or len("%d %s" % (n, t)) > 254: raise Discard("not one line")
    r, bad = parse.parse_program(tl, {}, crunch)
    if ch.chance(35):
        # the same after a number of valid lines
        if not crunch:
            pre = [(i + 1, ch.pick([x for x in TEMPL[:30] if x])) for i in range(ch.int(5, 40))]
            m = len(pre)
            if all(n + m < 65000 for n, _ in tl): tl = pre + [(n + m, t) for n, t in tl]
            r, bad = parse.parse_program(tl, {}, crunch)
    modes = ch.weighted([(3, ["parse", "run"]), (2, ["load"]), (2, ["type"]), (4, ["imm"])])
    if modes == ["type"] and any(len("%d %s" % l) > 126 or not l[1] for l in tl): modes = ["load"]
    case = dict(tl=tl, bad=bad, crunch=crunch, modes=modes, muts=muts, kind=kind)
    if modes == ["imm"]:
        # setup, then lines that are invalid, and a last one that may be valid
        kinds = {}
        pre = [t for t in ["DIM Q(3)", "DEF FNA(X)=X+1", "DIM S$(4)", 'A$="s"', "A=PQ(1)"] if ch.chance(60)]
        for t in pre: parse.parse_line(t, kinds)
        if "A=PQ(1)" in pre: kinds["PQ"] = "A"       # used as an array: it is one from then on
        seq = []
        cands = [t for _, t in tl if t.strip(" \t")]
        if ch.chance(70): # many more
            more = []
            for _ in range(ch.int(5, 40)):
                t = ch.pick(TEMPL) or "PRINT"
                if ch.chance(40):
                    try: t = text_of(retype(ch, parse.parse_line(t, {})))
                    except parse.Bad: pass
                    if ch.chance(70): more.append(t); continue
                for _ in range(ch.pick([1, 1, 2])): t = near(ch, t) if ch.chance(75) else mut(t)
                if "\0" not in t and "\n" not in t and t.strip(" \t"): more.append(t)
            cands = more + cands
        for t in cands:
            u = t.lstrip(" \t")
            if u[0] in "0123456789*" or len(t) > 126: continue
            w = ""
            for c in u:
                if not c in parse.ALPHA: break
                w += c.upper()
            if w in COMMANDS: continue
            try:
                parse.parse_line(u, dict(kinds))
                if len(cands) > 12 and t is not cands[-1]: continue
                seq.append((t, True)); break
            except parse.Bad: seq.append((t, False))
        if not seq: raise Discard("no line to type")
        case.update(pre=pre, seq=seq)
    return case

def fixed_cases():
    f = lambda bad, *t: dict(tl=[[10 * (i + 1), x] for i, x in enumerate(t)], bad=bad, crunch=False, modes=["parse", "run"], muts=1, kind="fixed")
    return [("byte-255", f(1, "PRINT 1", "REM\xff x")), ("byte-255-colon", f(1, "PRINT 1", "PRINT 1:\xff")), ("rnd-string-power", f(1, "PRINT 1", "PRINT RND(2^A$)"))]

def judge(case, sut):
    tl, bad = case["tl"], case["bad"]
    k = ["-k"] if case["crunch"] else []
    text = "".join("%d %s\n" % tuple(l) for l in tl)
    first = None if bad is None else "%d %s" % tuple(tl[bad])
    for mode in case["modes"]:
        what = None
        if mode == "parse":
            r = perform(dict(files={"p.bas": text}, args=["-q", "--parse"] + k + ["p.bas"], variant="san"), sut)
            what = verdict(r)
            if not what and r.out: what = "printed %r" % r.out[:200]
            if not what and r.code() != (0 if bad is None else 1): what = "exit status %d" % r.code()
            if not what: what = one(r, first)
        elif mode == "run":
            r = perform(dict(files={"p.bas": text}, args=["-q"] + k + ["p.bas"], variant="san", breaks=BREAKS), sut)
            what = verdict(r)
            if not what and bad is not None and r.out: what = "the invalid program printed %r" % r.out[:200]
            if not what and not r.signal(): what = one(r, first)
        elif mode in ("load", "type"):
            files = {}
            if mode == "load": typed = ['LOAD "p.bas"']; files["p.bas"] = text
            else: typed = ["%d %s" % tuple(l) for l in tl]
            typed += ["COMPILE", "RUN", "REM nothing"]
            r = perform(dict(files=files, args=["-q"] + k, stdin="\n".join(typed) + "\n", variant="san", breaks=BREAKS), sut)
            what = verdict(r)
            if not what and bad is not None and r.out != "> " * (len(typed) + 1): what = "the invalid program printed something: %r" % r.out[:300]
            if not what and not r.signal(): what = one(r, first, 3)
        else:
            typed = list(case["pre"]) + [t for t, _ in case["seq"]]
            r = perform(dict(args=["-q"], stdin="\n".join(typed) + "\n", variant="san", breaks=BREAKS), sut)
            what = verdict(r)
            if not what and not r.signal():
                want = [t.lstrip(" \t") for t, ok in case["seq"] if not ok]
                got = [t for q, t in events(r.err) if q == "syntax"]
                if got != want: what = "immediate statements reported as invalid: %r; those that are invalid: %r; standard error %r" % (got, want, r.err[-400:])
                elif all(not ok for t, ok in case["seq"]) and r.out != "> " * (len(typed) + 1): what = "invalid statements printed %r" % r.out[:300]
                if what: return "typed %r: %s" % (typed, what)
            if what: return "typed %r: %s" % (typed, what)
        if what: return "%s%s: %s; program:\n%s" % (mode, " -k" if k else "", what, text)
    return None

def one(r, first, n=1):
    ev = [t for q, t in events(r.err) if q == "syntax"]
    if first is None:
        return None if not ev else "valid program reported as invalid: %r" % r.err[-400:]
    if ev != [first] * n: return "expected %d syntax errors for line %r, got %r: %r" % (n, first, ev, r.err[-400:])
    if [q for q, t in events(r.err) if q != "syntax"]: return "the invalid program ran: %r" % r.err[-400:]
    return None

def nontrivial(c): return c["muts"] >= 1
def classes(c):
    v = "immediate invalid %d" % sum(1 for t, ok in c["seq"] if not ok) if c["modes"] == ["imm"] else "valid" if c["bad"] is None else "invalid"
    return [c["kind"], v, "+".join(c["modes"]) + (" -k" if c["crunch"] else "")]
