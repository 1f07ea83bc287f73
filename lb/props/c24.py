"""Programs with one statement that fails, from a catalogue of the error conditions, placed in many contexts, reached by many ways;
effects before and after it and the line reported are compared with the reference interpreter."""
from .common import *
from . import c19
from ..judge import compare, in_order
from ..parse import parse_program

VARIANTS = ["plain"]
CASES = dict(quick=28000, thorough=400000)
RULE = "the program fails in the planted statement (by the reference interpreter), with effects before it observed"

# statements that fail, given the setup; %V: a value that is 0 when it matters
CONTROL = ["RETURN", "NEXT", "NEXT W", "GOTO 64999", "GOSUB 64999", "RESTORE 64999", "ON 1 GOTO 64999", "ON 2 GOSUB 900,64999", "ON 1.5 GOTO 900", "ON LOG(0) GOTO 900", "READ W,W1", "READ W1,Q(2),Q(3)", "READ W$,W",
           "DIM W1(5),W2(1,2,3)", "DIM W1(2),W2(300,300)", "DIM W1(4294967295)", "DIM W1(65535,65535)", "DIM W1(255,256)", "W1(11)=1", "W1(1)=2:W1(1,1)=3", "Q(11)=1", "Q(10.5)=1", "Q(-1)=1", "Q$(4,1)=\"x\"", "Q$(1)=\"x\"", "PRINT W3(11)",
           "S$=T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$+T$", "W=FNU(1)", "PRINT FNA(1,2)", "PRINT FNA(FNA(1))", "PRINT FNN(1)", "INPUT W", "INPUT \"ask\";W$,W", "LINE INPUT W$", "RANDOMIZE -1", "RANDOMIZE .5",
           "PRINT 1;2;LOG(0);3", "PRINT S$;CHR$(256);T$", "PRINT \"a\",TAB(20);\"b\";SPC(-1);\"c\"", "PRINT 7;FNL(0);8", "X=1:Y=2:X=LOG(0):Y=3", "FOR W=1 TO LOG(0)", "FOR W=LOG(0) TO 2", "FOR W=1 TO 2 STEP LOG(0)", "IF LOG(0) THEN X=1 ELSE X=2",
           "W=FNL(-1)", "W$=F$(300)", "Q(FNL(0))=3", "Q(2)=Q(3)+FNL(0)", "DEF FNQ(W)=LOG(W):W=FNQ(0)", "DEF FNA(W)=LOG(W):W=FNA(0)", "IF FNL(0) THEN X=1", "ON FNL(0) GOTO 900", "GOSUB 800", "GOSUB 810", "GOSUB 820", "GOTO 830", "GOSUB 840",
           "NEXT I,J,K", "READ Q(1),Q(20)", "READ W:RESTORE 64998", "W=1:W=W AND .5", "W=1E10:W=W OR 1", "W=NOT .5", "W=VAL(T$)", "W=VAL(\"\")", "W=ASC(MID$(S$,4,1))", "W$=LEFT$(S$,-1)", "W$=RIGHT$(S$,1.5)", "W$=MID$(S$,1,-1)", "W$=MID$(S$,0,1)"]
COUNT = ["W$=LEFT$(T$,%s)", "W$=RIGHT$(T$,%s)", "W$=MID$(T$,1,%s)", "W$=MID$(T$,%s,1)", "PRINT \"a\";TAB(%s);\"b\"", "PRINT SPC(%s)", "W$=CHR$(%s)", "Q(%s)=1", "Q$(1,%s)=\"x\"", "DIM W1(%s)", "DIM W2$(1,%s)", "RANDOMIZE %s", "W=%s AND 1", "W=1 OR %s", "W=NOT %s", "PRINT LEN(LEFT$(T$,%s))", "ON %s GOTO 900"]
LARGE = ["4294967296", "4294967297", "5E9", "1E10", "4294967296+256", "1E300", "-1", "-4294967296", "-1E300", ".5", "1E-300", "4294967295.5", "2^32", "2^40", "2^64", "2^63", "-2^31-1", "2^31", "1E18", "1E19"]

def gen(ch):
    tail = []
    # the statement
    k = ch.upto(3)
    if k == 0:
        f = c19.failing(ch, 0, 0) or ch.pick(c19.STMTS)
        f = f.replace("GOTO 10", "GOTO 900").replace("GOSUB 10", "GOSUB 900")
    elif k == 1 and ch.chance(40): f = ch.pick(COUNT) % ch.pick(LARGE)
    else: f = ch.pick(CONTROL)
    mid = ch.chance(50)
    before = ch.pick(['PRINT "before";X', 'X=X+1', 'Q(1)=Q(1)+1:PRINT Q(1);', 'S$=S$+"!"', 'PRINT FNA(2);', 'GOSUB 900', 'W$="w":PRINT W$;', 'FOR K=1 TO 2:PRINT K;:NEXT', 'READ W$', 'PRINT "col",;'])
    after = ch.pick(['PRINT "after"', 'X=99', 'Q(1)=99', 'S$="after"', 'END', 'GOTO 900', 'STOP', 'PRINT X:PRINT Y', "NEXT", "RETURN"])
    parts = ([before] if ch.chance(75) else []) + [f] + ([after] if ch.chance(75) else [])
    planted = ":".join(parts)
    lines = []
    defs = [('DEF FNA(X)=X*2+Y', 'DEF FNL(X)=LOG(X)'), ('DEF F$(X)=CHR$(X)+S$', 'DEF FNN(X)=FNA(X)+1')]
    lines.append('X=5:Y=-2.5:S$="abc":T$="hello world":DIM Q(10),Q$(3,3)')
    if ch.chance(50): lines += [":".join(d) for d in defs]
    else: lines += [x for d in defs for x in d]
    if ch.chance(20): lines.append("DEF FNL(X)=LOG(X)+0")
    if ch.chance(30): lines.append(ch.pick(["REM about", "DATA 1,two", 'PRINT "start";X', "PRINT FNL(2)"]))
    ctx = ch.weighted([(3, "plain"), (2, "then"), (2, "else"), (2, "loop"), (2, "sub"), (2, "aftersub"), (1, "loopsub"), (1, "on"), (1, "onelineloop"), (1, "back"), (1, "deep"), (1, "imm")])
    isif = planted.find("IF ") >= 0
    imm = None
    if ctx == "plain": lines += [planted]
    elif ctx == "then": lines += ["IF X=5 THEN %s" % planted]
    elif ctx == "else":
        lines += ["IF X=6 THEN PRINT \"no\" ELSE %s" % planted]
    elif ctx == "loop":
        n = ch.int(1, 4)
        lines += ["FOR I=1 TO 4", "PRINT I;", "IF I=%d THEN %s" % (n, planted), ch.pick(["NEXT", "NEXT I"])]
    elif ctx == "sub":
        lines += ["PRINT \"call\":GOSUB 700:PRINT \"back\"", "END"]; tail.append((700, planted)); tail.append((710, "RETURN"))
    elif ctx == "aftersub": lines += ["GOSUB %d:%s" % (ch.pick([900, 920]), planted)]
    elif ctx == "loopsub":
        lines += ["FOR I=1 TO 3:GOSUB 700:NEXT I", "END"]; tail.append((700, "X=X+1:IF I<%d THEN RETURN" % ch.int(1, 3))); tail.append((710, planted)); tail.append((720, "RETURN"))
    elif ctx == "on": lines += ["ON %d GOTO 900,700" % 2]; tail.append((700, planted))
    elif ctx == "onelineloop":
        lines += ["FOR I=1 TO 3:PRINT I;:Q(1)=I:NEXT I:%s" % planted]
    elif ctx == "back":
        lines += ["Z=Z+1:PRINT Z;", "IF Z<3 THEN 300", planted]
        tail.append((300, "PRINT \"jump\":GOTO %d" % (100 + 0)))
    elif ctx == "deep":
        tail += [(700, "GOSUB 710"), (705, "RETURN"), (710, "GOSUB 720:RETURN"), (720, planted), (730, "RETURN")]
        lines += ["GOSUB 700", "PRINT \"not\""]
    else:
        imm = planted
        lines += [ch.pick(["STOP", "END", "GOSUB 700:END"])]
        tail += [(700, "PRINT \"sub\";"), (710, "RETURN")]
    step = ch.pick([1, 5, 10])
    tl = []
    for i, t in enumerate(lines):
        if ctx == "back" and t.startswith("Z="): tl.append((100, t))
        else: tl.append(((tl[-1][0] if tl else 0) + step, t))
    if tl[-1][0] >= 300: raise Discard("numbers")
    if ch.chance(70) and (ctx in ("plain", "then", "else", "aftersub", "loop", "onelineloop", "back")): tl.append((299, ch.pick(["END", "PRINT \"reached\":END", "STOP"])))
    tail += [(800, "PRINT \"eight\";:X=X+LOG(0)"), (805, "RETURN"), (810, "FOR K=1 TO 2:PRINT K;:IF K=2 THEN RETURN 1"[:0] or "FOR K=1 TO 2:PRINT K;:IF K=2 THEN W=FNL(K-2)"), (812, "NEXT:RETURN"), (820, "GOSUB 820"), (825, "RETURN"),
             (830, "FOR A1=1 TO 2:FOR A2=1 TO 2:FOR A3=1 TO 2:FOR A4=1 TO 2:FOR A5=1 TO 2:FOR A6=1 TO 2:FOR A7=1 TO 2:FOR A8=1 TO 2:FOR A9=1 TO 2"), (840, "READ W,W1,W$,W1"), (841, "PRINT \"data\";W"), (842, "RETURN"),
             (900, "PRINT \"s\";"), (910, "RETURN"), (920, "X=FNA(1):RETURN"), (930, "DATA 7,8,\"x\",y,10,11")]
    tl += sorted(tail)
    if any(len("%d %s" % l) > 250 for l in tl): raise Discard("long")
    asts, bad = parse_program(tl)
    if asts is None: raise Discard("syntax " + tl[bad][1])
    off = 0
    if ch.chance(15):
        # with loops and calls open, or other things done before
        asts = context(ch, asts, 100, order=False)
        off = asts[-1][0] - 930
        tl = program_text(asts)
        if any(len("%d %s" % l) > 250 for l in tl): raise Discard("long")
    elif imm is None and ch.chance(20):
        # its parts in another order
        where = {}
        asts = scramble(ch, asts, where)
        off = where.get(900, 900) - 900
        tl = program_text(asts)
        if any(len("%d %s" % l) > 250 for l in tl): raise Discard("long")
    elif imm is None and ch.chance(12):
        # all of it far down in a long program
        off = 1000
        keep = {n for n, _ in tl}
        fill = ch.pick(["REM", 'Y=Y+0:REM "x"', "X1=1:Y1=2:Z1=3", 'PRINT;', "DATA 7,8", "IF Y>1 THEN PRINT 1 ELSE Y=0"])
        asts = [(n + off, [relabel(st, lambda r: r + off if r in keep else r) for st in ss]) for n, ss in asts]
        tl = [(i + 1, fill) for i in range(ch.pick([30, 60, 100, 130, 255, 256, 300, ch.int(1, 600)]))] + program_text(asts)
        if any(len("%d %s" % l) > 250 for l in tl): raise Discard("long")
        asts, bad = parse_program(tl)
        if asts is None: raise Discard("syntax " + tl[bad][1])
    mode = ch.pick(["file", "load", "type"]) if imm is None else ch.pick(["load", "type"])
    if mode == "type" and any(len("%d %s" % l) > 126 for l in tl): mode = "load"
    if mode == "file":
        vm = Vm(max_steps=3000); vm.load(tl, asts); how = vm.run_program()
        run = file_run(tl, vm)
        errs = vm.errors
    else:
        s = Session(max_steps=4000)
        files = {}
        if mode == "load": files["p.bas"] = file_text(tl); s.load("p.bas", tl)
        else:
            for n, t in tl: s.line(n, t)
        how = s.run()
        if imm is not None:
            if how == "error": raise Discard("failed early")
            if len(imm) > 120: raise Discard("long")
            if ch.chance(30): imm = "GOSUB 700:" + imm
            how = s.imm(imm)
        if s.ended: raise Discard("input ended")
        for t in ['PRINT X;Y;S$;W;W$;W1;I;J;K;Z', 'PRINT Q(1);Q(2);Q(3);Q(20-10)', 'PRINT FNA(1)', 'READ W$:PRINT W$', 'CONT', 'GOSUB %d' % (900 + off)]:
            if t == "CONT": s.cont()
            else: s.imm(t)
        run = s.finish(files=files)
        errs = s.reports
    w = "" if how != "error" else "error"
    return dict(runs=[run], fails=how == "error", ctx=ctx, f=f, mode=mode)

def judge(case, sut):
    run = case["runs"][0]
    r = perform(run, sut)
    why = compare(run, r)
    if why: return "run (%s): %s" % (" ".join(run["args"]), why)
    return in_order(run, r, sut)

def nontrivial(c): return c["fails"]
def classes(c): return [c["ctx"], c["mode"], "fails" if c["fails"] else "does not fail"]
