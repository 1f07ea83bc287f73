"""Breaks during programs, immediate statements and listings: what was printed and what the variables hold afterwards must be those of some
instant of the undisturbed execution by the reference interpreter, and the rest of the session must go on from there."""
from .common import *
from ..judge import compare, ended, OVERFLOW

VARIANTS = ["brk"]
CASES = dict(quick=25000, thorough=250000)
RULE = "the break was delivered while the statement, program or listing was under way"
SN = ["A", "I", "J", "X"]; SS = ["B$"]
PROBE = "PRINT \"@[\";" + ";".join(SN + SS) + ";\"]@\""
MARK = "@["

def program_(ch):
    k = ch.upto(5)
    if k == 0:
        return [(10, "FOR I=1 TO %d" % ch.int(2, 9)), (20, "X=X+I"), (30, ch.pick(["PRINT I;X", "PRINT I;", "A=A+1:B$=B$+\"*\""])), (40, "NEXT"), (50, 'PRINT "out";I;X')]
    if k == 1:
        return [(10, "GOSUB 100:A=A+1"), (20, "IF A<%d THEN 10" % ch.int(2, 6)), (30, "PRINT A;B$"), (40, "END"), (100, "GOSUB 200"), (110, 'B$=B$+"r"'), (120, "RETURN"), (200, "X=X+1:PRINT X"), (210, "RETURN")]
    if k == 2:
        return [(10, "READ A,B$,X"), (20, "PRINT A,B$,X"), (30, "IF A<%d THEN 10" % ch.int(3, 9)), (40, 'RESTORE:READ I'), (50, "DATA 1,a,2,3,b,4,5,c,6,7,d,8"), (60, "DATA 9,e,10"), (70, "PRINT I")]
    if k == 3:
        return [(10, "DIM Q(5),R$(2,2)"), (20, "FOR I=0 TO 5:FOR J=1 TO 2:Q(I)=I*J:X=X+Q(I):NEXT J,I"), (30, "R$(1,2)=\"q\":B$=R$(1,2)"), (40, "PRINT X;B$;Q(5)"), (50, "DEF FNT(Y)=Y*2+X:A=FNT(A)+FNT(1):PRINT A")]
    b = Builder(ch, items=ch.pick([2, 4]), risk=1, dump=False)
    b.env.nums = list(SN); b.env.strs = list(SS)
    tl = program_text(b.build().resolve())
    if any(len("%d %s" % l) > 120 for l in tl): raise Discard("long")
    return tl

def endless(ch):
    """Programs and statements that would go on for ever, in all manner of places, until Q is set"""
    body = ch.pick(["X=X+1", "PRINT X;:X=X+1", 'X=X+1:B$=LEFT$(B$+"ab",5)', "READ J:RESTORE", "FOR J=1 TO 2:X=X+J:NEXT", "X=FNZ(X)", "GOSUB 900", 'IF X>5 THEN X=0 ELSE X=X+1:PRINT "."', "Z(2)=Z(2)+1:X=Z(2)", "A=A+1:J=A*2", "REM", 'PRINT "a",', "IF X<3 THEN X=X+1", "ON 1 GOSUB 900", "INP=1:X=ABS(-X-1)"])
    head = ["DEF FNZ(Y)=Y+1:DIM Z(3)"]
    nest = [ch.pick(["GOSUB", "GOSUB", "FOR"]) for _ in range(ch.int(0, 9) if ch.chance(60) else 0)]
    tl = []
    n = 10
    def add(t):
        nonlocal n
        tl.append((n, t)); n += 10
    add(head[0])
    if ch.chance(40): add("READ I,J")
    sub = 300
    # what is left to do after the endless part, from the innermost outwards
    inner = []
    for i, d in enumerate(nest):
        if d == "FOR": add("FOR G%d=1 TO 1" % i)
        else: add("GOSUB %d" % (n + 10 if i % 2 else n + 10))
    k = ch.upto(4)
    at = n
    if k == 0: add(body); add("IF Q=0 THEN %d" % at)
    elif k == 1: add(body + ":IF Q=0 THEN %d" % at if "IF" not in body else "IF Q=0 THEN GOSUB 900:GOTO %d" % at)
    elif k == 2: add("FOR I=1 TO 2 STEP 1E-9"); add(body); add("IF Q THEN I=9"); add("NEXT I")
    elif k == 3: add("FOR I=1 TO 2 STEP 1E-9:X=X+1:IF Q=0 THEN NEXT"); add("I=9:NEXT I")
    else: add(body); add("ON Q+1 GOTO %d,%d" % (at, n + 10)); 
    add('PRINT "out";X;I;A:READ J:PRINT J')
    add("IF Q>3 THEN END ELSE Q=Q+1")
    if nest: add(ch.pick(["RETURN", "RETURN", "NEXT", 'PRINT "then":RETURN']))
    add('PRINT "end":END')
    if n >= 890: raise Discard("long")
    tl += [(900, ch.pick(["X=X+1", "PRINT X;", "A=A+1", "GOSUB 920"])), (910, "RETURN"), (920, "X=X+2:RETURN"), (930, "DATA 1,2,3,4,5,6,7,8,9")]
    acts = []
    if ch.chance(30): acts.append(["imm", ch.pick(["X=4", "PRINT X", "Q=0", 'B$="q"'])])
    t = ch.weighted([(6, ["run"]), (2, ["imm", "GOTO %d" % at]), (1, ["imm", "DIM Z(3):GOSUB %d" % at]), (1, ["imm", "FOR I=1 TO 2 STEP 1E-9:X=X+1:NEXT"]), (1, ["imm", "FOR I=1 TO 2 STEP 1E-9:FOR J=1 TO 2:X=X+J:NEXT J,I"]), (1, ["imm", "FOR I=1 TO 3 STEP 1E-9:GOSUB 900:NEXT"]), (1, ["imm", "DIM Z(3):FOR P=1 TO 2:GOTO %d" % at])])
    target = len(acts)
    acts.append(t)
    later = [["imm", "Q=%d:PRINT X" % ch.int(1, 5)], ["cont"]]
    for _ in range(ch.int(0, 3)):
        later.append(ch.pick([["cont"], ["imm", "NEXT"], ["imm", "RETURN"], ["imm", "READ J:PRINT J"], ["list", None, None], ["imm", "PRINT I;J;X"], ["imm", "FOR W=1 TO 2:PRINT W;:NEXT"]]))
    if ch.chance(30): later.insert(0, ch.pick([["imm", "PRINT I;J;X;A"], ["list", None, None], ["imm", "PRINT )"], ["imm", "PRINT LOG(0)"], ["imm", "REM"]]))
    return dict(mode="endless", tl=tl, acts=acts + later, target=target, x=ch.pick([ch.int(2, 60), ch.int(20, 400), ch.int(20, 1200)]), what="endless " + t[0], load=ch.chance(50), probe=ch.chance(75), delivered=False)

class Enough(Exception): pass

def gen(ch):
    if ch.chance(20): return endless(ch)
    tl = program_(ch)
    b = Builder(ch, items=2)
    b.env.nums = list(SN); b.env.strs = list(SS)
    file = ch.chance(12)
    if file:
        kinds = {}
        try: asts = [(n, parse.parse_line(t, kinds)) for n, t in sorted(tl)]
        except parse.Bad: raise Discard("syntax")
        vm = Vm(max_steps=6000)
        vm.load(sorted(tl), asts)
        vm.run_program()
        return dict(mode="file", tl=tl, acts=[], target=0, x=ch.int(0, 999), what="file", base=dict(file_run(sorted(tl), vm), variant="brk"), delivered=False)
    nums = sorted(n for n, _ in tl)
    ln = lambda: ch.pick(nums)
    def stmt():
        k = ch.upto(9)
        if k == 0: return "FOR I=1 TO %d:X=X+I:NEXT" % ch.int(2, 12)
        if k == 1: return "FOR J=1 TO %d:PRINT J;:NEXT J:PRINT" % ch.int(2, 9)
        if k == 2: return "GOSUB %d:PRINT A" % ln()
        if k == 3: return "GOTO %d" % ln()
        if k == 4: return "FOR I=1 TO 3:GOSUB %d:NEXT" % ln()
        if k == 5: return ch.pick(["NEXT", "RETURN", "NEXT I", "READ A:PRINT A", "X=0:I=0:A=0", "STOP", "END"])
        if k == 6: return 'A=1:B$="s":X=A+LEN(B$):PRINT A;B$;X:IF X>1 THEN A=2:PRINT A ELSE A=3:PRINT X'
        if k == 7: return text_of(b.simples(4))
        if k == 8: return 'PRINT "abc";TAB(9);A,X;"d";I'
        return 'PRINT %d;A;"x";%d:A=A+1:PRINT A' % (ch.int(0, 9), ch.int(0, 9))
    def act():
        k = ch.weighted([(6, "imm"), (3, "run"), (3, "list"), (2, "cont"), (1, "edit")])
        if k == "imm":
            t = stmt()
            if len(t) > 120: raise Discard("long")
            return ["imm", t]
        if k == "list":
            a = ch.pick(nums + [None, None]); z = ch.pick(nums + [None, None])
            return ["list", a, z]
        if k == "edit": return ["edit", ln() + ch.int(0, 1), ch.pick(["PRINT 77", "X=X+1", "STOP", "REM new"])]
        return [k]
    acts = [act() for _ in range(ch.size(0, 4))]
    target = len(acts)
    t = act()
    while t[0] == "edit" or t[0] == "cont" and ch.chance(70): t = act()
    acts.append(t)
    probe = ch.chance(75)
    later = [["imm", ch.pick(["NEXT", "RETURN", "PRINT 1:NEXT", "NEXT I", "NEXT J:PRINT J", "READ A:PRINT A", "PRINT A;X:RETURN", "PRINT I;J:NEXT:PRINT X"])]] if not probe and ch.chance(50) else [["cont"]] if t[0] in ("run", "cont") and ch.chance(50) else []
    for _ in range(ch.size(1, 5)):
        if ch.chance(35): later.append(["cont"])
        else: later.append(act())
    acts += later
    return dict(mode="session", tl=tl, acts=acts, target=target, x=ch.int(0, 999), what=t[0], load=ch.chance(50), probe=probe, delivered=False)

def play(case, upto=None, brk=None, watch=None):
    """The session as the model has it. brk: what the break left of the target: operations carried out, or lines listed; None: no break.
    watch: called with the session before each operation of the target, and after the last."""
    tl = case["tl"]
    s = Session(max_steps=6000)
    if case.get("load"): s.load("p.bas", tl)
    else:
        for l in tl: s.line(*l)
    s.compile()
    for i, a in enumerate(case["acts"][:upto]):
        hit = i == case["target"]
        if hit and a[0] != "list": s.vm.brk = (lambda: watch(s)) if watch else brk
        if a[0] == "imm": s.imm(a[1])
        elif a[0] == "run": s.run()
        elif a[0] == "cont": s.cont()
        elif a[0] == "edit": s.line(a[1], a[2])
        elif hit and brk is not None:
            s.type(listcmd(a))
            for n in selected(s, a)[:brk]: s.say("%d %s" % (n, s.stored[n]))
        else: s.list(a[1], a[2], listcmd(a))
        s.vm.brk = None
        if hit:
            if watch:
                watch(s)
                return s
            s.nlist = len(selected(s, a)) if a[0] == "list" else 0
            if not case["probe"]: continue
            s.imm(PROBE)
            s.list()
    s.imm(PROBE)
    return s

def selected(s, a): return [n for n in sorted(s.stored) if n >= (a[1] or 0) and (a[2] is None or n <= a[2])]

def listcmd(a):
    return "LIST" if a[1] is None and a[2] is None else "LIST %d-" % a[1] if a[2] is None else "LIST -%d" % a[2] if a[1] is None else "LIST %d-%d" % (a[1], a[2])

def probe_text(vm):
    return MARK + "".join(" %s " % g(vm.num.get(v, 0.0)) for v in SN) + "".join(vm.str.get(v, "") for v in SS) + "]@"

def judge_file(case, sut):
    """A file run from the command line and interrupted prints the beginning of what it would have, and Break."""
    e = case["base"]
    r = perform(e, sut)
    why = compare(e, r)
    if why: return "without breaks: " + why
    left = r.counts[0] if r.counts else 0
    if left < 20: raise Discard("nothing to interrupt")
    gap = 1 + case["x"] * (left - 1) // 1000
    run = dict(e, breaks=[[1, gap]])
    q = perform(run, sut)
    where = "break at function entry %d of %d: " % (gap, left)
    why = ended(q, run)
    if why: return where + why
    case["delivered"] = q.out.endswith("Break\n") and not r.out.endswith("Break\n")
    if not case["delivered"]:
        why = compare(e, q)
        return where + why if why else None
    if not r.out.startswith(q.out[:-6]): return where + "it printed %r, which is not the beginning of %r" % (q.out[-400:], r.out[-400:])
    if q.err: return where + "standard error %r" % q.err[-300:]
    if q.code() != 0: return where + q.describe()
    return None

def judge(case, sut):
    case["delivered"] = False
    if case["mode"] == "file": return judge_file(case, sut)
    t = case["target"]
    a = case["acts"][t]
    def run(s): return s.finish(files={"p.bas": file_text(case["tl"])}, variant="brk")
    free = case["mode"] == "session"
    if free:
        base = run(play(case))
        r = perform(base, sut)
        why = compare(base, r)
        if why: return "without breaks: stdin %r: %s" % (base["stdin"][-500:], why)
    # the period of trapped breaks that is the target's
    first = len(perform(run(play(dict(case, target=-1), upto=t)), sut).counts)
    if free:
        # the closing probe has one of its own
        n = len(perform(run(play(dict(case, target=-1), upto=t + 1)), sut).counts)
        if n == first: raise Discard("nothing to interrupt")
        left = r.counts[first - 1]
        if left < 4: raise Discard("nothing to interrupt")
        gap = 1 + case["x"] * (left - 1) // 1000
    else:
        left = 0
        gap = case["x"]
        # what is typed is the same wherever the break comes
        base = run(play(case, brk=0))
    brun = dict(base, breaks=[[first, gap]])
    q = perform(brun, sut)
    why = ended(q, base)
    where = "break at function entry %d of %d of %r; stdin %r: " % (gap, left, a, base["stdin"])
    if why and not q.endless(): return where + why # (it may be CONT that does not end, by the model either)
    try:
        if compare(base if free else run(play(case)), q) is None: return None # it came too late to count
    except Discard: pass
    cands = unknown = 0
    if a[0] == "list": instants = range(play(case).nlist + 1)
    else:
        got = OVERFLOW.sub("", q.out).replace("> ", "")
        instants = {}
        n = [0]
        def watch(s):
            v = s.vm
            out = "".join(v.out) + "Break\n" + (probe_text(v) if case["probe"] else "")
            n[0] += 1
            if n[0] > min(5 * gap + 100, 5900): raise Enough() # an operation takes a function or more, but the reference may count differently
            if got.startswith(out.replace("> ", "")):
                instants.setdefault(repr((out, v.code is v.prog, v.pc, v.pdata, v.idata, v.col, sorted(v.kinds.items()), sorted(v.defs), sorted((k, m, sorted(a.items())) for k, (m, a) in v.arr.items()), sorted(v.num.items()), sorted(v.str.items()), [(x[0] is v.prog,) + tuple(x[1:]) for x in v.rets], [[y[1] is v.prog if y[0] == "code" else y for y in f.items()] for f in v.fors])), n[0] - 1)
        try: play(case, watch=watch)
        except Enough: pass
        instants = sorted(instants.values())
        if len(instants) > 300: raise Discard("many instants")
    for k in instants:
        try: e = run(play(case, brk=k))
        except Discard: unknown += 1; continue
        cands += 1
        if compare(e, q) is None:
            case["delivered"] = True
            return None
    if unknown: raise Discard("what follows the break is outside the model")
    return where + "the result is that of no instant of the execution (%d possible by what was printed first); at one instant, it would print:\n%s\nit printed:\n%s\nstandard error %r" % (cands, base["out"][-800:], q.out[-800:], q.err[-300:])

def nontrivial(c): return c["delivered"]
def classes(c): return [c["mode"], c["what"] + (" interrupted" if c["delivered"] else " too late")] + (["CONT after it"] if any(a[0] == "cont" for a in c["acts"][c["target"] + 1:]) else [])
