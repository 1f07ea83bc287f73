"""FOR/NEXT: structured nests and random FOR/NEXT/GOTO histories, run by the reference interpreter."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=50000, thorough=250000)
RULE = "at least two FOR statements executed and at least 3 iterations by NEXT, or a documented FOR/NEXT error reached after a loop"

VARS = ["I", "J", "K", "L", "M", "N", "II", "J2", "Q", "W"]

def lit(x):
    t = ("%.12g" % abs(x)).upper()
    return ("neg", num(t)) if x < 0 else num(t)

def header(ch, v, env):
    k = ch.upto(9)
    a = ch.pick([0, 1, 1, -2, 5, .5, 10, 3])
    st = ch.pick([None, None, 1, 2, -1, -2, .5, -.5, .25, .1, -.1, 3, 1e-3 if ch.chance(10) else 1, 100])
    if ch.chance(8):
        a = ch.magic(0, 1 << 24) if ch.chance(60) else ch.int(0, 10 ** ch.int(1, 7))
        a = (a + ch.pick([0, 0, .5, .25])) * ch.pick([1, 1, -1])
    if ch.chance(5): st = (ch.magic(1, 1 << 16) or 1) * ch.pick([1, -1, .5])
    step = 1 if st is None else st
    n = ch.int(-1, 4)
    if ch.chance(4): n = ch.magic(5, 270) or 5
    b = a + n * step
    if abs(a) > 50 and ch.chance(30): a, b = a - n * step, a
    if ch.chance(30): b += ch.pick([.5, -.5, .01, -.01]) * abs(step)
    if ch.chance(8): b = a - 7 * (1 if step > 0 else -1) # limit already passed
    ea, eb, es = lit(a), lit(round(b, 6)), None if st is None else lit(st)
    if k == 0: ea = op("+", var(ch.pick(env)), lit(a))
    if k == 1: eb = op("+", var(ch.pick(env)), lit(round(b, 6)))
    if k == 2: eb = var(v)
    if k == 3 and st is not None: es = op("+", lit(st), num(0))
    return ("for", v, ea, eb, es)

def body(ch, vs):
    k = ch.upto(5)
    if k <= 2: return ("print", [x for v in vs[:3] for x in (("e", var(v)), (";",))], False)
    if k == 3: return ("print", [("e", ("str", "*")), (";",)], False)
    if k == 4: return ("let", var("T"), op("+", var("T"), var(vs[0]) if vs else num(1)), False)
    v = ch.pick(vs or ["T"])
    return ("let", var(v), op(ch.pick(["+", "+", "-"]), var(v), num(ch.int(0, 2))), False) if ch.chance(30) else ("let", var("T"), num(1), False)

def nest(ch):
    """proper nests, some closed by one NEXT with several variables; loops on one line or several"""
    b = Builder(ch)
    depth = ch.weighted([(4, 1), (4, 2), (3, 3), (1, 5), (1, 8), (1, 9)])
    if ch.chance(10): depth = ch.int(4, 9)
    # subroutines called from the loops, before or after them, some with a loop of their own
    subs = [b.label() for _ in range(ch.int(1, 3))] if ch.chance(35) else []
    def routine(l):
        b.here(l)
        if ch.chance(50): b.emit(("print", [("e", ("str", "s%d" % -l)), (";",)], False), ("return",))
        else:
            v = ch.pick(["R", "S", VARS[0]]) if ch.chance(10) else ch.pick(["R", "S"])
            b.emit(("for", v, num(1), num(ch.int(1, 2)), None))
            b.emit(("print", [("e", var(v)), (";",)], False), ("next", () if ch.chance(50) else (v,)))
            b.emit(("return",))
    early = [l for l in subs if ch.chance(50)]
    if early:
        st = b.label()
        b.emit(("goto", st))
        for l in early: routine(l)
        b.here(st)
    def call(): return [("gosub", ch.pick(subs))] if subs and ch.chance(70) else []
    def level(d, used):
        vs = [v for v in VARS if v not in used]
        v = vs[0]
        h = header(ch, v, ["T", "Z"] + used)
        if depth > 3: h = ("for", v, num(1), num(ch.int(1, 2)), None)
        inner = used + [v]
        closing = [("next", ())] if ch.chance(40) else [("next", (v,))]
        if d == 1 and ch.chance(8):
            # a step of zero: the loop goes on until it is left
            l = b.label()
            b.emit(("let", var("Y"), num(0), False))
            b.emit(("for", v, lit(ch.pick([1, 5, 0, -2])), lit(ch.pick([1, 5, 0, 3, -3])), ch.pick([num(0), op("-", num(1), num(1)), ("neg", num(0)), var("ZERO")])))
            b.emit(body(ch, inner[::-1]), ("let", var("Y"), op("+", var("Y"), num(1)), False))
            b.emit(("if", op("=", var("Y"), num(ch.int(2, 4))), ("line", l), None))
            b.emit(*closing); b.emit(("print", [("e", ("str", "left"))], False)); b.here(l); b.emit(("print", [("e", ("str", "out")), ("e", var(v))], False))
            if ch.chance(50): b.emit(("let", var(v), num(1), False))
            return
        if d == 1:
            if ch.chance(40):
                b.emit(h, body(ch, inner[::-1]), *call(), *closing, *([body(ch, inner)] if ch.chance(30) else []))
                return
            b.emit(h)
            b.emit(body(ch, inner[::-1]), *call())
            if ch.chance(25): # leave the loop by GOTO
                l = b.label()
                b.emit(("if", op(ch.pick([">", "="]), var(v), num(ch.int(1, 3))), ("line", l), None))
                b.emit(*closing); b.here(l); b.emit(("print", [("e", ("str", "out"))], False))
                return
            b.emit(*closing)
            return
        b.emit(h, *([body(ch, inner[::-1])] if ch.chance(40) else []))
        if ch.chance(25) and d == 2:
            v2 = [x for x in vs if x != v][0]
            b.emit(("for", v2, num(1), num(ch.int(1, 3)), None), body(ch, [v2, v]))
            b.emit(("next", (v2, v)))
            return
        for _ in range(ch.int(1, 2) if depth < 4 else 1): level(d - 1, inner)
        b.emit(body(ch, inner), *(call() if ch.chance(40) else []))
        b.emit(*closing, *([body(ch, inner)] if ch.chance(20) else []))
    for _ in range(ch.int(1, 2)): level(depth, [])
    b.emit(("print", [("e", ("str", "end")), ("e", var("I")), ("e", var("J")), ("e", var("T"))], False))
    late = [l for l in subs if l not in early]
    if subs:
        b.emit(("end",))
        for l in late: routine(l)
    return b.resolve()

def history(ch):
    """FOR, NEXT, jumps and subroutines in arbitrary order over a few variables"""
    b = Builder(ch)
    vs = VARS[:ch.int(1, 3)] if ch.chance(80) else VARS
    n = ch.int(3, 16)
    labs = [b.label() for _ in range(n)]
    sub = b.label()
    for i in range(n):
        b.here(labs[i])
        ss = []
        for _ in range(ch.int(1, 2)):
            k = ch.weighted([(5, "for"), (5, "next"), (3, "nextv"), (2, "print"), (1, "nextvv"), (1, "let"), (1, "gosub"), (1, "clear")])
            v = ch.pick(vs)
            if k == "for": ss.append(header(ch, v, vs))
            elif k == "next": ss.append(("next", ()))
            elif k == "nextv": ss.append(("next", (v,)))
            elif k == "nextvv": ss.append(("next", tuple(ch.pick(vs) for _ in range(ch.int(2, 3)))))
            elif k == "print": ss.append(body(ch, vs))
            elif k == "let": ss.append(("let", var(v), num(ch.int(0, 5)), False))
            elif k == "gosub": ss.append(("gosub", sub))
            elif k == "clear" and ch.chance(40): ss.append(("clear",))
            else: ss.append(body(ch, vs))
            ss.append(("print", [("e", ("str", "%d:" % i)), ("e", var(v)), (";",)], False))
        if ch.chance(20):
            j = ch.int(max(0, i - 3), n - 1)
            ss.append(("let", var("G"), op("+", var("G"), num(1)), False))
            ss.append(("if", op("<", var("G"), num(ch.int(2, 12))), ("line", labs[j]), None))
        b.emit(*ss)
    b.emit(("end",))
    b.here(sub)
    b.emit(("print", [("e", ("str", "sub"))], False), header(ch, ch.pick(vs), vs), body(ch, vs))
    if ch.chance(60): b.emit(("next", ()))
    b.emit(("return",))
    return b.resolve()

def crossed(ch):
    """several loops open at once, continued by NEXT in any order, and more opened in between"""
    b = Builder(ch)
    vs = VARS[:ch.int(3, 9)]
    def opened(v):
        a, st = ch.int(-2, 3), ch.pick([None, None, num(1), num(2), ("neg", num(1)), num(.5)])
        n = ch.int(0, 3) * (-1 if st and st[0] == "neg" else 1)
        return ("for", v, lit(a), lit(a + n), st)
    def show(t): return ("print", [("e", ("str", t))] + [x for v in vs for x in (("e", var(v)), (";",))], False)
    for v in vs: b.emit(opened(v))
    for i in range(ch.int(2, 7)):
        if ch.chance(80): b.emit(show("%d:" % i))
        k = ch.upto(9)
        if k < 6: b.emit(("next", (ch.pick(vs),)))
        elif k == 6: b.emit(("next", ()))
        elif k == 7: b.emit(("next", tuple(ch.pick(vs) for _ in range(ch.int(2, 3)))))
        else: b.emit(opened(ch.pick(vs)))
    b.emit(("print", [("e", ("str", "end"))] + [x for v in vs for x in (("e", var(v)), (";",))], False))
    return b.resolve()

def gen(ch):
    k = ch.upto(9)
    lines = nest(ch) if k < 5 else history(ch) if k < 8 else crossed(ch)
    style = ch if ch.chance(25) else None
    run, vm = run_lines(lines, style, max_steps=4000, ctx=ch, p=12)
    return dict(runs=[run], fors=vm.nfor, iters=vm.niter, err=len(vm.errors), f=sorted(vm.features & {"refor", "forfull", "nextouter"}))

def nontrivial(c): return c["fors"] >= 2 and c["iters"] >= 3 or c["fors"] >= 1 and c["err"] > 0
def classes(c): return c["f"] + (["error"] if c["err"] else ["no error"])
