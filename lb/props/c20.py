"""Sessions that mix a stored program with immediate statements of every kind, against the reference interpreter: one environment,
jumps into the program, continuing its loops and calls, edits, RUN, CLEAR."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=40000, thorough=300000)
RULE = "at least 4 immediate statements, of which one transfers control into the program or continues its loops or calls, or uses a definition made by the program (or the other way round)"

SMALL = [
    # loops and calls left open by STOP or failure, definitions and data on both sides
    [(10, 'FOR I=1 TO 4'), (20, 'PRINT "I";I'), (30, 'STOP'), (40, 'NEXT I'), (50, 'PRINT "OUT";I'), (60, 'END'), (70, 'PRINT "SUB";I'), (80, 'RETURN')],
    [(10, 'DEF FNA(X)=X+Y'), (20, 'DIM Q(3)'), (30, 'Y=Y+1:Q(2)=Y'), (40, 'PRINT FNA(1);Q(2)'), (50, 'GOSUB 100'), (60, 'PRINT "BACK"'), (70, 'END'), (100, 'STOP'), (110, 'PRINT "RET"'), (120, 'RETURN')],
    [(10, 'READ A,B$'), (20, 'PRINT A;B$'), (30, 'IF A<3 THEN 10'), (40, 'PRINT LOG(0)'), (50, 'DATA 1,one,2,"two",3,three,4,four'), (60, 'GOTO 10')],
    [(10, 'FOR I=1 TO 3'), (20, 'FOR J=1 TO 2'), (30, 'PRINT I;J'), (40, 'IF I*J=2 THEN STOP'), (50, 'NEXT J'), (60, 'NEXT I'), (70, 'STOP'), (80, 'PRINT "LAST"')],
    [(100, 'GOSUB 200'), (110, 'PRINT "A"'), (120, 'END'), (200, 'GOSUB 300'), (210, 'PRINT "B"'), (220, 'RETURN'), (300, 'PRINT "C":STOP:PRINT "D"'), (310, 'RETURN')],
    [(10, 'PRINT "P"'), (20, 'PRINT FNP(X+1)'), (30, 'X=X+1'), (40, 'B$=H$(X)'), (50, 'PRINT B$'), (60, 'IF X<3 THEN 20'), (70, 'END'), (80, 'A=FNP(2)'), (90, 'RETURN')],
    [(10, 'NEXT'), (20, 'PRINT "N";I'), (30, 'END'), (40, 'NEXT I'), (50, 'PRINT "M"'), (60, 'RETURN'), (70, 'PRINT "Z"')],
]
SNUM = ["A", "I", "J", "X", "Y", "K"]; SSTR = ["B$", "T$"]

def gen(ch):
    small = ch.chance(40)
    st = dict(imm=0, into=0, edits=0, nruns=0)
    replies = lambda: reply(ch) if not ch.chance(2) else None
    s = Session(replies=replies, max_steps=1500)
    files = {}
    if small:
        tl = ch.pick(SMALL)
        b = Builder(ch, items=2)
        b.env.nums = list(SNUM); b.env.strs = list(SSTR)
        b.spare = [n for n in NAMES if n not in SNUM]
    else:
        b = Builder(ch, items=ch.pick([2, 4]), stop=True, risk=3, input=ch.chance(30), dump=False, clear=True).build()
        lines = b.resolve()
        for _ in range(ch.int(0, 3)):
            i = ch.upto(len(lines) - 1)
            if lines[i][1][-1][0] not in ("if", "rem", "data"): lines[i] = (lines[i][0], lines[i][1] + [("stop",)])
        tl = program_text(lines)
        if any(len("%d %s" % l) > 120 for l in tl): raise Discard("long")
        b.loopvars = []
    env = b.env
    if ch.chance(30): # names that begin like commands, or are the beginning of one
        for _ in range(ch.int(1, 3)):
            n = ch.pick(sorted(COMMANDS))
            n = n[:ch.int(1, len(n))] if ch.chance(30) else n + "".join(ch.pick("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(ch.int(1, 12)))
            if ok_name(n) and n not in env.nums: env.nums.append(n)
    def enter():
        if ch.chance(50): files["p.bas"] = file_text(tl); s.load("p.bas", tl)
        else:
            for n, t in ch.shuffle(tl) if ch.chance(30) else tl: s.line(n, t)
    have = not ch.chance(8)
    if have: enter()
    def nline():
        return ch.pick(sorted(s.stored)) if s.stored and not ch.chance(3) else 64999
    def lit(x): return num(x) if x >= 0 else ("neg", num(-x))
    def forst():
        v = ch.pick(env.nums)
        return ("for", v, lit(ch.int(-1, 3)), num(ch.int(0, 4)), None if ch.chance(60) else lit(ch.pick([1, 2, -1])))
    def nxt():
        if ch.chance(50): return ("next", ())
        if s.vm.fors and ch.chance(80): return ("next", (ch.pick(s.vm.fors)["var"],))
        return ("next", (ch.pick(env.nums),))
    show = lambda: ("print", [x for v in ch.shuffle(env.nums)[:3] + ch.shuffle(env.strs)[:1] for x in (("e", var(v)), (";",))], False)
    def stmts():
        if small and tl is SMALL[5] and ch.chance(35):
            f = ch.pick(["FNP", "FNP", "H$"])
            e = sexpr(ch, env, 1) if f == "H$" else op("+", var("X"), num(ch.int(0, 9)))
            if ch.chance(80): return [("def", f, ch.pick(["X", "Y"]), e)]
            return [("print", [("e", idx(f, num(ch.int(0, 5))))], False)]
        k = ch.weighted([(8, "simple"), (5, "goto"), (5, "gosub"), (4, "next"), (3, "return"), (3, "for"), (3, "forcall"), (2, "if"), (2, "on"), (2, "data"), (2, "openfor"), (2, "show"), (1, "restore"), (1, "stop"), (1, "clear"), (1, "end"), (1, "ifgo"), (1, "expr")])
        if k == "simple": return b.simples(3)
        if k == "show": return [show()]
        pre = b.simples(1) if ch.chance(25) else []
        post = [show()] if ch.chance(30) else []
        if k == "goto": st["into"] += 1; return pre + [("goto", nline())] + post
        if k == "gosub": st["into"] += 1; return pre + [("gosub", nline())] + (post or [show()])
        if k == "next": st["into"] += bool(s.vm.fors); return pre + [nxt()] + post
        if k == "return": st["into"] += bool(s.vm.rets); return pre + [("return",)] + post
        if k == "for": return [forst()] + b.simples(2) + [nxt()] + post
        if k == "forcall": st["into"] += 1; return [forst(), ch.pick([("gosub", nline()), ("goto", nline())]), show(), nxt()] + post
        if k == "if":
            return pre + [("if", cond(ch, env), ("stmts", b.simples(2)), ("stmts", b.simples(1)) if ch.chance(50) else None)]
        if k == "ifgo":
            st["into"] += 1
            return [("if", cond(ch, env), ("line", nline()), ("line", nline()) if ch.chance(50) else None)]
        if k == "on":
            st["into"] += 1
            return pre + [("on", small_(ch, env), ch.pick(["GOTO", "GOSUB"]), [nline() for _ in range(ch.int(1, 3))])] + post
        if k == "data":
            its = [b.datum() for _ in range(ch.int(1, 3))]
            rd = ("read", [var(ch.pick(env.strs)) for _ in range(ch.int(1, 3))])
            return [("data", its)] * ch.upto(1) + [rd] + [show()] + ([("data", its)] if ch.chance(30) else [])
        if k == "openfor": return [forst() for _ in range(ch.int(1, 2))] + post
        if k == "restore": return pre + [("restore", nline() if ch.chance(50) else None), ("read", [var(ch.pick(env.strs))])] + [show()]
        if k == "stop": return pre + [("stop",)] + post
        if k == "clear": return [("clear",)] + post
        if k == "expr":
            if env.fns or env.arrs: return [("print", [("e", nexpr(ch, env, 3)), (";",), ("e", sexpr(ch, env, 3))], False)]
            return [show()]
        return pre + [("end",)] + post
    def go(text_style=None):
        ss = stmts()
        t = text_of(ss, ch if ch.chance(10) else None)
        if len(t) > 120: return
        w = ""
        for c in t:
            if not c.isalpha(): break
            w += c.upper()
        if w in COMMANDS: return
        st["imm"] += 1
        s.imm(t)
    if have and ch.chance(60): s.run(); st["nruns"] += 1
    for _ in range(ch.size(3, 16)):
        if s.ended: break
        k = ch.weighted([(14, "imm"), (2, "run"), (2, "cont"), (1, "edit"), (1, "delete"), (1, "compile"), (1, "new"), (1, "add"), (1, "bad")])
        if k == "imm": go()
        elif k == "run": s.run(ch.pick(["RUN", "run", "Run "])); st["nruns"] += 1
        elif k == "cont": s.cont()
        elif k == "edit" and s.stored and ch.chance(60):
            t = text_of([show()] if ch.chance(60) else b.simples(1))
            if len(t) < 110: s.line(ch.pick(sorted(s.stored)), t); st["edits"] += 1
        elif k == "add":
            t = text_of(ch.pick([[show()], b.simples(1), [("stop",)], [("return",)], [("next", ())]]))
            if len(t) < 110: s.line((max(s.stored) + 10) if s.stored else 10, t); st["edits"] += 1
        elif k == "delete" and s.stored and ch.chance(40): s.delete(ch.pick(sorted(s.stored)) + ch.upto(1)); st["edits"] += 1
        elif k == "compile": s.compile()
        elif k == "bad" and s.stored and ch.chance(30):
            # a syntax error in the program, repaired after a few statements
            n = ch.pick(sorted(s.stored)); t = s.stored[n]
            s.line(n, "PRINT )"); go()
            if not s.ended: s.line(n, t); st["edits"] += 1
        elif k == "new" and ch.chance(25):
            s.new(); go()
            if not s.ended and ch.chance(60): enter()
    if not s.ended:
        for _ in range(2):
            t = text_of([show()])
            if not s.ended: s.imm(t)
    if s.ended: raise Discard("end of input")
    run = s.finish(files=files)
    return dict(runs=[run], **st)

def small_(ch, env):
    return num(ch.int(0, 4)) if ch.chance(70) else var(ch.pick(env.nums))

def nontrivial(c): return c["imm"] >= 4 and c["into"] >= 1
def classes(c): return [k for k in ("into", "edits", "nruns") if c[k]]
