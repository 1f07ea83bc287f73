"""Sessions with failing statements, repeated any number of times: the reference session takes no notice of them, so everything after
them must behave as if they had never been typed. Also programs that fail."""
from .common import *
from ..fuzz import soup, mutate_tokens

VARIANTS = ["plain"]
CASES = dict(quick=12000, thorough=300000)
RULE = "at least one failing statement with at least 3 observing statements after it"

SETUP = [
    ('X=5', None), ('Y=-2.5', None), ('S$="abc"', None), ('T$="hello world"', None), ('DIM Q(10)', None), ('DIM Q$(3,3)', None), ('Q(3)=33', None), ('Q$(1,2)="q12"', None),
    ('DEF FNA(X)=X*2+Y', None), ('DEF F$(X)=CHR$(X)+S$', None), ('DEF FNL(X)=LOG(X)', None)]

PROG = [(10, 'PRINT "ten";X'), (20, 'Y=Y+1'), (30, 'RETURN'), (40, 'DATA 1,two,3,"four"'), (50, 'FOR I=1 TO 3'), (60, 'PRINT I;S$'), (70, 'NEXT'), (80, 'STOP'), (90, 'PRINT "after";X;I'), (100, 'END'),
        (200, 'X=X+1'), (210, 'PRINT LOG(0)'), (220, 'PRINT "no"'), (230, 'END'),
        (300, 'FOR J=1 TO 2'), (310, 'GOSUB 400'), (320, 'NEXT J'), (330, 'PRINT "done"'), (340, 'END'),
        (400, 'PRINT "in";J;:STOP'), (410, 'RETURN'),
        (420, 'FOR A8=1 TO 2:FOR B8=1 TO 2'), (430, 'PRINT "n";A8;B8:STOP'), (440, 'NEXT'), (450, 'NEXT A8:PRINT "end":END'),
        (460, 'GOSUB 470:PRINT "back":END'), (470, 'FOR C8=1 TO 2:FOR D8=1 TO 2:FOR E8=1 TO 2:STOP:NEXT:NEXT:NEXT:RETURN'),
        (500, 'DEF FNL(X)=LOG(X)'), (510, 'DEF FNA(X)=X+Y'), (520, 'DIM Q(10),Q$(3,3)'), (530, 'DEF F$(X)=CHR$(X)+S$'), (540, 'END'), (600, 'READ A$:PRINT A$;:GOTO 600'), (610, 'GOSUB 620'), (620, 'GOSUB 600'),
        (630, 'R9=0'), (640, 'R9=R9+1:GOSUB 640'), (650, 'PRINT "r";R9;:R9=R9-1:RETURN'), (660, 'FOR N1=1 TO 2:FOR N2=1 TO 2:FOR N3=1 TO 2:FOR N4=1 TO 2:FOR N5=1 TO 2'), (670, 'FOR N6=1 TO 2:FOR N7=1 TO 2:FOR N8=1 TO 2:FOR N9=1 TO 2:FOR M1=1 TO 2'), (680, 'FOR M2=1 TO 2:FOR M3=1 TO 2:FOR M4=1 TO 2:FOR M5=1 TO 2:FOR M6=1 TO 2:FOR M7=1 TO 2:FOR M8=1 TO 2'), (690, 'END')]

def wrap(ch, e, s=False):
    """bury a failing expression in pending operands, within the stacks"""
    for _ in range(ch.size(0, 4)):
        if s: e = ch.pick(['("a"+%s)', '%s+"z"', '("p"+("q"+%s))', 'LEFT$(%s,2)']) % e
        else: e = ch.pick(["(1+%s)", "%s*2", "(3-(2*%s))", "ABS(%s)", "(X+(Y*(2+%s)))", "-%s"]) % e
    return e

NFAIL = ["LOG(0)", "LOG(-1)", "ASC(CHR$(256))", "VAL(\"x\")", "VAL(S$)", "LEN(MID$(S$,9,1))", "LEN(MID$(S$,0,1))", "Q(11)", "Q(-1)", "Q(1.5)", "Q(1,1)", "Q(1,2,3)", "(1 AND .5)", "(.5 OR 1)",
         "(NOT 1.5)", "FNL(0)", "FNA(FNA(1))", "FNA(1,2)", "Q(LOG(0))", "Q(FNL(-1))", "FNA(LOG(0))", "FNL(-1)", "LEN(MID$(S$,4,0))", "LEN(MID$(CHR$(0),1,0))", "LEN(MID$(S$,256,1))", "ASC(LEFT$(S$,0)+CHR$(-1))", "LEN(Q$(4,0))", "LEN(Q$(0,4))", "LEN(LEFT$(S$,-1))", "LEN(RIGHT$(S$,.5))", "VAL(\"\")",
         "Q(4294967296)", "VAL(\"0x10\")", "(1E10 AND 1)", "LEN(F$(300))", "LEN(LEFT$(S$,-.25))", "LEN(RIGHT$(S$,-.001))", "LEN(MID$(S$,1,-.4))", "LEN(MID$(S$,.75,1))", "(1 AND -.25)", "(NOT -.1)", "Q(-.25)", "Q(.3)", "(-1E-9 OR 1)", "LEN(LEFT$(S$,.49))",
         "LEN(CHR$(-.25))", "LEN(CHR$(64.75))", "LEN(Q$(-.5,0))", "LEN(Q$(0,-.125))", "Q(9.999)"]
SFAIL = ["CHR$(256)", "CHR$(-1)", "CHR$(1.5)", "LEFT$(S$,-1)", "MID$(S$,0,1)", "MID$(S$,4,1)", "Q$(4,4)", "Q$(1)", "F$(-1)", "F$(256)", "STR$(LOG(0))", "F$(LOG(0))", "(T$+Q$(0,9))", "MID$(T$,LOG(0),1)"]
STMTS = ["GOTO 64999", "GOSUB 64999", "NEXT ZZ9", "RESTORE 64999", "ON 1.5 GOTO 10", "ON X-4 GOTO 64999", "ON X-4 GOSUB 64999", "DIM Q(65536)", "DIM Q(300,300)", "DIM Q(-1)", "DIM Q(1.5)", "DIM R9(1,2,3)",
         "DIM Q(4294967295)", "DIM Q$(65535,1)", "Q(1,2,3)=1", "Q(11)=1", "Q(-1)=4", "Q$(0)=\"x\"", "READ Q(11)"[:0] or "Q(10.5)=1", "RANDOMIZE -1", "RANDOMIZE 1.5", "FOR I9=LOG(0) TO 5", "FOR I9=1 TO LOG(0)", "FOR I9=1 TO 2 STEP LOG(0)"]
SYNTAX = ["PRINT )", "X=", "X=1 2", "PRINT (1", "GOTO", "GOTO X", "FOR X", "NEXT 5", "IF X", "IF X THEN", "DIM", "DIM Q", "DEF", "DEF FNA", "DEF FNA(X)", "DEF FNA(X)=\"s\"", "DEF FNA(S$)=1", "DEF Q(X)=1", "FNA(1)=2",
          "DIM FNA(3)", "S$=1", "X=\"a\"", "READ", "INPUT", "ON X", "ON X GOTO", "LET", "LET 5=X", "PRINT \"abc", "PRINT X(", "X(1)=1:PRINT )", "DEF G9(X)=1:PRINT )", "DIM G8(3):X=\"s\"", "PRINT G7(1):)", "THEN", "TO 5", "ELSE", ")", "=", "5X",
          "PRINT X@", "RND=1", "LEN=2", "ABS(1)=2", "PRINT ABS", "PRINT LEN(1)", "PRINT CHR$(S$)", "X=S$+1", "PRINT 1E", "RESTORE X", "GOSUB 1.5", "RETURN 5"[:0] or "DATA \"x", "IF S$ THEN 10", "DEF X(Y)=", "FOR S$=1 TO 2", "NEXT S$", "RANDOMIZE S$", "USR(1)=2", "PRINT INKEY$"]

def failing(ch, calls, loops):
    """(text, line reported)"""
    k = ch.upto(9)
    if k <= 2:
        e = ch.pick(NFAIL)
        x = wrap(ch, e)
        t = ch.pick(["PRINT %s", "X=%s", "Q(%s)=1", "Q(2)=%s", "IF %s THEN X=1 ELSE X=2", "PRINT TAB(%s);", "PRINT SPC(%s);", "ON %s GOTO 10", "FOR I9=1 TO %s", "RANDOMIZE %s", "S$=STR$(%s)", "Q$(1,%s)=\"z\"", "DIM Q(%s)", "S$=LEFT$(T$,%s)", "?X*%s"]) % x
        if "%" in t: raise Discard("x")
        return t
    if k <= 4:
        x = wrap(ch, ch.pick(SFAIL), True)
        return ch.pick(["PRINT %s", "S$=%s", "Q$(1,1)=%s", "IF %s=\"a\" THEN X=1", "X=LEN(%s)", "Y=ASC(%s)", "PRINT %s+S$"]) % x
    if k == 5: return ch.pick(["PRINT TAB(-1);", "PRINT SPC(-1);", "PRINT SPC(1.5);", "PRINT TAB(.5);", "PRINT TAB(-.25);", "PRINT SPC(-.25);", "ON -.25 GOTO 10", "RANDOMIZE -.25", "ON .75 GOSUB 10", "DIM Q(-.25)", "DIM Q(3.25,1)"])
    return None

def gen(ch):
    s = Session(max_steps=6000)
    files = {}
    prog = ch.chance(75)
    if prog:
        if ch.chance(50):
            for n, t in PROG: s.line(n, t)
        else:
            files["p.bas"] = "".join("%d %s\n" % x for x in PROG); s.load("p.bas", PROG)
    setup = [t for t, _ in SETUP]
    for t in ["Q(0)=7", "Q(1)=-1", "Q(2)=.5", "Q(10)=10", "Q$(0,0)=\"zz\"", "Q$(3,3)=\"last\"", "Q$(0,1)=T$", "I9=9"]:
        if ch.chance(70): setup.append(t)
    for t in setup: s.imm(t)
    observe = [lambda: s.imm('PRINT X;Y;S$;T$;Q(3);Q(0);Q$(1,2);"|"'), lambda: s.imm("PRINT FNA(3);F$(65);FNL(1)"), lambda: s.imm('PRINT Q(0);Q(1);Q(2);Q(4);Q(10);Q$(0,0);Q$(3,3);Q$(1,1);I9'),
               # as many pending values as the stacks hold
               lambda: s.imm("PRINT 1+(2+(3+(4+(5+(6+(7+(8+(9+(10+(11+(12+(13+(14+(15+X"  + ")" * 14),
               lambda: s.imm('PRINT "a"+("b"+("c"+("d"+("e"+("f"+("g"+S$' + ")" * 6),
               lambda: s.imm("FOR A1=1 TO 2:FOR A2=1 TO 1:FOR A3=1 TO 1:FOR A4=1 TO 1:FOR A5=1 TO 1:FOR A6=1 TO 1:NEXT:NEXT:NEXT:NEXT:NEXT:PRINT A1;:NEXT"),
               lambda: s.list() if prog else s.imm("REM"),
               lambda: s.imm("X=X+1:Q(3)=Q(3)+1:S$=LEFT$(S$+CHR$(64+X),9)") ]
    if prog:
        observe += [lambda: s.imm("GOSUB 10"), lambda: s.imm("READ A$:PRINT A$"), lambda: s.imm("RESTORE:READ A:PRINT A")]
    nfail = nobs = 0
    kinds = set()
    base = set(s.vm.kinds)
    for _ in range(ch.size(2, 9)):
        w = ch.weighted([(6, "fail"), (3, "obs"), (2, "syntax"), (1, "soup"), (1, "cmd"), (1, "run"), (1, "goto"), (1, "stopcont"), (1, "drain"), (1, "nest")])
        kinds.add(w)
        times = ch.weighted([(6, 1), (2, 2), (2, ch.int(3, 20)), (1, ch.int(9, 40))])
        if w == "fail":
            t = failing(ch, 0, 0) or ch.pick(STMTS)
            if t == "RETURN" or len(t) > 120: continue
            if not prog and "10" in t and t.startswith(("ON 1.5", "ON X")): pass
            for _ in range(times):
                # the model does not execute it; it must leave no trace
                s.type(t)
                if not s.ensure(): raise Discard("program")
                kk = dict(s.vm.kinds)
                try: ast = parse.parse_line(t, kk)
                except parse.Bad: raise Discard("syntax " + t)
                inner = fails(s.vm, ast, t)
                s.reports.append(["run", inner])
            nfail += 1; nobs = 0
        elif w in ("syntax", "soup"):
            t = ch.pick(SYNTAX) if w == "syntax" else (soup(ch, 6) if ch.chance(50) else mutate_tokens(ch, ch.pick(["PRINT X;Y", "Q(3)=X+1", "DEF FNA(X)=X+1", "DIM Z9(4)", "FOR I=1 TO 5"]), 2))
            u = t.lstrip(" \t")
            if not u or u[0].isdigit() or u[0] == "*" or len(t) > 120 or any(c in t for c in "\0\n\r"): continue
            wd = ""
            for c in u:
                if not c.isalpha(): break
                wd += c.upper()
            if wd in COMMANDS: continue
            kk = dict(s.vm.kinds)
            s_ok = True
            try: parse.parse_line(u, kk)
            except parse.Bad: s_ok = False
            if s_ok: continue
            for _ in range(times):
                s.type(t)
                if not s.ensure(): raise Discard("program")
                s.reports.append(["syntax", [0, u]])
            nfail += 1; nobs = 0
        elif w == "cmd" and ch.chance(30):
            for _ in range(times): s.overlong((ch.pick(["PRINT 1:", "X=5:", "NEW ", "10 ", "FOR X=1 TO 3:", "* "]) + ch.pick(["PRINT 2:", "X=9:", "1", "CLEAR:", '"', "NEW "]) * 300)[:ch.pick([127, 128, 254, 255, ch.int(127, 290)])] + ch.pick(["", "X=7", "NEW", "10"]))
        elif w == "cmd":
            t, say = ch.pick([("LIST X", "Command syntax error"), ("NEW X", "Command syntax error"), ("LOAD x", "Quoted file name expected"), ("SAVE", "Quoted file name expected"), ("BYE 1", "Command syntax error"), ("RENUM X", "Command syntax error")])
            for _ in range(times): s.type(t); s.say(say)
        elif w == "obs":
            for _ in range(times if times < 4 else 2): ch.pick(observe)(); nobs += 1
        elif not prog: continue
        elif w == "drain":
            # no data left: every READ fails
            for _ in range(ch.int(1, 2)): s.imm(ch.pick(["GOSUB 600", "GOTO 600", "GOSUB 610", "FOR K9=1 TO 6:READ A$:PRINT A$;:NEXT", "READ A$:GOSUB 600"]))
            for _ in range(times if times < 6 else 6):
                s.imm(ch.pick(["READ A$", "READ X", "GOSUB 600", "READ Q(2)"])); nobs += 1
            nfail += 1
            if ch.chance(40): s.imm("RESTORE:READ A$:PRINT A$")
        elif w == "nest":
            # calls or loops nested too deeply; those that fitted stay
            for _ in range(times if times < 5 else 5): s.imm(ch.pick(["GOTO 630", "GOSUB 640", "GOSUB 630", "GOTO 640", "GOTO 660", "GOSUB 660", "FOR K9=1 TO 3:GOTO 660"]))
            for _ in range(ch.int(1, 5)):
                s.imm(ch.pick(["RETURN", "RETURN", "NEXT", "NEXT N5", "NEXT N2", "NEXT M5", "PRINT N1;N2;N5;N8;M1;M8;R9", "GOSUB 10", "FOR L9=1 TO 2:PRINT L9;:NEXT", "NEXT K9"])); nobs += 1
            nfail += 1
        elif w == "run":
            # the program stops, fails or ends; executed by the model
            s.run()
            if ch.chance(60): s.cont()
            for t in setup: s.imm(t)
        elif w == "goto":
            t = ch.pick(["GOTO 200", "GOSUB 200", "GOTO 210", "FOR K1=1 TO 2:GOTO 210", "GOSUB 210:PRINT 1", "GOTO 30"])
            for _ in range(times): s.imm(t)
            nobs = 0; nfail += 1
        else:
            # failures while a program is stopped, which then goes on
            s.imm(ch.pick(["GOTO 300", "GOTO 50", "GOTO 420", "GOTO 460", "GOSUB 300", "GOSUB 460", "FOR K9=1 TO 2:GOTO 420"]))
            for _ in range(ch.int(1, 4)):
                for _ in range(times if times < 12 else 12):
                    bad = ch.chance(20)
                    t = ch.pick(SYNTAX) if bad else failing(ch, 0, 0) or ch.pick(STMTS)
                    if not t or len(t) > 120 or t[0].isdigit(): continue
                    try: ast = parse.parse_line(t, dict(s.vm.kinds))
                    except parse.Bad: ast = None
                    if bad:
                        if ast is not None: continue
                        s.type(t); s.reports.append(["syntax", [0, t]])
                    else:
                        if ast is None: raise Discard("syntax " + t)
                        s.type(t); s.reports.append(["run", fails(s.vm, ast, t)])
                k = ch.upto(9)
                if k < 7: s.cont()
                elif k == 7: s.imm("NEXT")
                elif k == 8: s.imm("PRINT A8;B8;C8;D8;E8;J;I")
                else: s.imm("RETURN")
            nfail += 1
            if ch.chance(70):
                for _ in range(ch.int(1, 4)): s.cont()
    for f in ch.shuffle(observe)[:5]: f(); nobs += 1
    run = s.finish(files=files)
    return dict(runs=[run], nfail=nfail, nobs=nobs, kinds=sorted(kinds))

def fails(vm, ast, text):
    """Check by a copy of the model that the statement fails at once; where it is reported."""
    import copy
    keep = (vm.reader, vm.trace)
    vm.reader = vm.trace = None
    try: v = copy.deepcopy(vm)
    finally: vm.reader, vm.trace = keep
    v.reader = lambda: None
    v.errors = []
    n = len(v.out)
    if v.run_immediate(text, ast) != "error": raise Discard("does not fail: " + text)
    if len(v.out) != n: raise Discard("prints")
    e = v.errors[0]
    return None if e is None else list(e)

def nontrivial(c): return c["nfail"] >= 1 and c["nobs"] >= 3
def classes(c): return c["kinds"] + ["failing %d" % min(c["nfail"], 5)]
