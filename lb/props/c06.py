"""GOTO, GOSUB, RETURN, ON: walks over control-flow graphs with arbitrary line numbers, run by the reference interpreter."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=48000, thorough=150000)
RULE = "at least 6 transfers of control, between lines that are not neighbours"

def mark(i): return ("print", [("e", ("str", "%d" % i)), (";",)], False)

def walk(ch):
    """a program that visits its lines in a random order"""
    n = ch.weighted([(6, ch.int(2, 20)), (3, ch.int(20, 140)), (1, ch.int(120, 600))])
    if n > 200 and not ch.chance(50): n //= 4
    nums = numbering(ch, n, 65535)
    if ch.chance(10): nums[-1] = 65535
    order = [0] + (ch.shuffle(range(1, n)) if n < 150 else shuffled(ch, n))
    nxt = {order[i]: order[i + 1] for i in range(n - 1)}
    lines = []
    for i in range(n):
        t = [mark(i)]
        j = nxt.get(i)
        if j is None:
            if ch.chance(40):
                x = absent(ch, nums)
                t.append(ch.pick([("goto", x), ("gosub", x), ("if", num(1), ("line", x), None), ("on", num(1), "GOTO", [x])]))
            else: t.append(("end",))
        else:
            k = ch.upto(4) if n < 150 else 0
            to = nums[j]
            other = nums[ch.upto(n - 1)]
            if k <= 1: t.append(("goto", to))
            elif k == 2:
                m = ch.int(1, 4) if ch.chance(75) else ch.int(5, 20)
                pos = ch.int(1, m)
                t.append(("on", num(pos), "GOTO", [to if q == pos else nums[ch.upto(n - 1)] for q in range(1, m + 1)]))
            elif k == 3: t.append(("if", num(1), ("line", to), ("line", other)))
            else: t.append(("if", num(0), ("stmts", [("goto", other)]), ("stmts", [("goto", to)])))
        lines.append((nums[i], t))
    return lines

def shuffled(ch, n):
    import random
    r = list(range(1, n)); random.Random(ch.upto(1 << 20)).shuffle(r)
    return r

def absent(ch, nums):
    """a line number that does not exist, near an existing one, or that would share its place in some table"""
    d = ch.pick([1, 5, 10, 100, 1000, 256, 512, 1024, 4096, 32768]) if ch.chance(60) else 397 * ch.int(1, 6) if ch.chance(70) else max(1, ch.magic(1, 65535))
    n = nums[ch.upto(len(nums) - 1)] + (-d if ch.chance(50) else d)
    if n in nums or not 1 <= n <= 65535 or ch.chance(10):
        return next(n for n in ch.shuffle([5, 101, 12345, 65535, 64999, 7, 9, 13]) + list(range(1, 65536)) if n not in nums)
    return n

def calls(ch):
    """subroutines calling each other, ON, errors, RETURN into the middle of lines"""
    b = Builder(ch)
    ns = ch.int(1, 10) if ch.chance(70) else ch.int(7, 10)
    subs = [b.label() for _ in range(ns)]
    missing = -900
    loops = ch.chance(20)
    cnt = [0]
    def m():
        cnt[0] += 1
        return mark(cnt[0])
    def call(subs, deep):
        k = ch.weighted([(6, 0), (3, 1), (1, 2), (1, 3)])
        if k == 0: return [("gosub", subs[0] if deep else ch.pick(subs))]
        if k == 1:
            q = ch.int(1, 5) if ch.chance(80) else ch.int(6, 24)
            e = ch.pick([num(ch.int(0, q + 1)), num(ch.int(1, q)), num(q), ("neg", num(ch.pick(["1", ".5", "1.5", ".99", "2", "1E-9", "256", "4294967295"]))), num("%d.%s" % (ch.int(0, q), ch.pick(["5", "99", "01", "999999"]))), num(ch.pick(["1.5", ".5", "255", "256", "65536", "65537", "4294967297", "1E10"])), op("+", var("A"), num(1))])
            return [("on", e, ch.pick(["GOSUB", "GOSUB", "GOTO"]) if not deep else "GOSUB", [ch.pick(subs) for _ in range(q)])]
        if k == 2: return [("if", ch.pick([num(1), var("A")]), ("stmts", [("gosub", ch.pick(subs)), m()]), ("stmts", [m(), ("gosub", ch.pick(subs))]))]
        return [("for", "F%d" % ch.int(0, 9), num(1), num(ch.int(1, 2)), None), ("gosub", ch.pick(subs)), ("next", ())]
    for _ in range(ch.int(1, 5)):
        ss = [m()] if ch.chance(60) else []
        c = call(subs, ch.chance(30))
        if ch.chance(6): c = [("gosub", missing)] if ch.chance(50) else [("on", num(ch.int(1, 2)), ch.pick(["GOTO", "GOSUB"]), [missing, subs[0]])]
        if ch.chance(3): c = [("return",)]
        if c[-1][0] == "if": b.emit(*ss, *c)
        else: b.emit(*ss, *c, *([m()] if ch.chance(70) else []), *([m()] if ch.chance(20) else []))
        if ch.chance(15): b.emit(("let", var("A"), num(ch.int(0, 1)), False))
    if ch.chance(90): b.emit(("end",))
    for i, l in enumerate(subs):
        b.here(l)
        rest = subs[i + 1:]
        ss = [m()]
        if rest and ch.chance(80 if ns > 6 else 40):
            c = call(rest, ns > 6)
            if c[-1][0] == "if": b.emit(*ss, *c); ss = []
            else: ss += c + ([m()] if ch.chance(60) else [])
        k = ch.upto(3)
        if k == 0: b.emit(*ss, ("return",))
        elif k == 1: b.emit(*ss, m()); b.emit(("return",))
        elif k == 2: b.emit(*(ss or [m()])); b.emit(("if", var("A"), ("stmts", [("return",)]), ("stmts", [m(), ("return",)])))
        else: b.emit(*ss, ("return",), m())
    lines = b.resolve()
    if loops: lines = loop_round(ch, lines)
    nums = [n for n, _ in lines]
    near = absent(ch, nums)
    return [(n, [relabel(s, lambda r: near if r == missing else r) for s in ss]) for n, ss in lines]

def loop_round(ch, lines):
    """loops that are begun in one subroutine and continued in another, or by its caller"""
    out = []
    for n, ss in lines:
        ss = list(ss)
        if ss and ss[-1] == ("return",) and ch.chance(40):
            g = "G%d" % ch.int(0, 2)
            if ch.chance(60): ss[-1:] = [("for", g, num(1), num(ch.int(1, 3)), None), ("return",)]
            else: ss[-1:] = [("if", op("<", var(g), num(ch.int(1, 3))), ("stmts", [("next", ch.pick([(), (), (g,)])), ("return",)]), ("stmts", [("return",)]))]
        elif ss and all(s[0] in ("print", "gosub", "on", "let") for s in ss) and ch.chance(40):
            g = "G%d" % ch.int(0, 2)
            ss.append(("print", [("e", var(g)), (";",)], False))
            ss.append(("if", op("<", var(g), num(ch.int(1, 4))), ("stmts", [("next", ch.pick([(), (), (g,)]))]), None))
        out.append((n, ss))
    return out

def edited(ch, lines):
    """the program typed and run, then edited and run, again and again: control goes where the lines are now"""
    s = Session(max_steps=3000)
    cur = dict((n, ss) for n, ss in lines)
    text = lambda n, ss: program_text([(n, ss)])[0][1]
    jumps = 0
    for n, ss in lines: s.line(n, text(n, ss))
    s.run()
    for _ in range(ch.int(1, 3)):
        for _ in range(ch.pick([1, 1, 1, 2, 3])):
            n = ch.pick(sorted(cur))
            ss = list(cur[n])
            k = ch.weighted([(5, "longer"), (2, "shorter"), (1, "delete"), (1, "move"), (1, "swap")])
            if k == "longer": ss[:0] = [("let", var("Z%d" % i), num(i), False) for i in range(ch.int(1, 5))]
            elif k == "shorter": ss = ss[1:] if len(ss) > 1 else ss
            elif k == "swap":
                m = ch.pick(sorted(cur))
                cur[n], cur[m] = cur[m], cur[n]
                s.line(m, text(m, cur[m])); s.line(n, text(n, cur[n])); continue
            else:
                if len(cur) < 2: continue
                s.delete(n); del cur[n]
                if k == "delete": continue
                n = absent(ch, sorted(cur) + [n])
            cur[n] = ss
            s.line(n, text(n, ss))
        if ch.chance(25): s.stmts([ch.pick([("goto", ch.pick(sorted(cur))), ("gosub", ch.pick(sorted(cur)))])])
        else: s.run()
    run = s.finish(); vm = s.vm
    return dict(runs=[run], jumps=vm.njump, size=len(cur), err=len(run["errors"]), f=["edited"])

def gen(ch):
    walking = ch.chance(45)
    lines = walk(ch) if walking else calls(ch)
    if len(lines) < 60 and ch.chance(14): return edited(ch, lines)
    style = ch if len(lines) < 40 and ch.chance(25) else None
    run, vm = run_lines(lines, style, max_steps=6000, ctx=ch, p=12)
    return dict(runs=[run], jumps=vm.njump, size=len(lines), err=len(vm.errors), f=sorted(vm.features & {"gosubfull", "onfall", "noline", "noreturn"}))

def nontrivial(c): return c["jumps"] >= 6 or c["err"] > 0 and c["jumps"] >= 2
def classes(c):
    return c["f"] + ["lines %s" % ("<128" if c["size"] < 128 else "128+"), "error" if c["err"] else "no error"]
