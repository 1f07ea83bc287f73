"""Expressions: reference evaluator over generated trees and flat operator chains."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=50000, thorough=400000)
RULE = ("at least 3 expressions of which one has 3 or more operators, where at least one value could be decided "
        "(printed) or one documented error was expected")

EDGE = ["0", "1", "2", "3", ".5", "1.5", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "2147483649",
        "4294967295", "4294967296", "1E10", "1E-10", "1E300", "123456", "1234567", "999999.5", "100000", ".1", ".000123"]

def edge(ch):
    t = ch.pick(EDGE)
    return ("neg", num(t)) if ch.chance(35) else num(t)

def tree(ch, env, d):
    k = ch.weighted([(6, "mix"), (2, "edge"), (2, "logic"), (1, "deep"), (1, "boundary")])
    if k == "mix": return nexpr(ch, env, d)
    if k == "edge":
        o = ch.pick(["+", "-", "*", "/", "^", "AND", "OR", "=", "<", ">", "<>", "<=", ">="])
        return op(o, edge(ch), edge(ch))
    if k == "logic":
        a = edge(ch) if ch.chance(50) else num(ch.int(0, 70000))
        r = ch.upto(3)
        if r == 0: return ("not", a)
        if r == 1: return ("not", ("not", a))
        return op(ch.pick(["AND", "OR"]), a, logical(ch, env, 1))
    if k == "deep":
        # right-nested operators use one more stack place each
        n = ch.int(2, 15)
        e = num(ch.int(0, 9))
        for _ in range(n): e = op(ch.pick(["+", "-", "*", "^"]) if n < 6 else ch.pick(["+", "-"]), num(ch.int(0, 9)), e)
        return e
    f = ch.pick(["LOG", "SQR", "INT", "ABS", "SGN", "EXP", "ATN", "SIN", "COS", "TAN"])
    a = edge(ch) if f != "SQR" else num(ch.pick(EDGE))
    return fn(f, a)

OPS = ["+", "-", "*", "/", "^", "=", "<", ">", "<>", "<=", ">=", " AND ", " OR "]
def chain(ch, env):
    """Operands and operators in a row, with few parentheses: grouping is decided by the reference grammar."""
    n = ch.int(2, 7) if ch.chance(85) else ch.int(8, 20)
    ints = ch.chance(60)
    r = []
    rel = False
    depth = 0
    for i in range(n):
        if i:
            o = ch.pick(OPS)
            if o in REL:
                if rel: o = ch.pick(["+", "-", "*"])
                rel = True
            if o in (" AND ", " OR "): rel = False
            r.append(o)
        # unary operators where the grammar allows them
        prev = r[-1] if r else ""
        if prev in ("", " AND ", " OR ", "(") and ch.chance(20): r += ["NOT "] * (ch.size(1, 4) if ch.chance(70) else ch.int(1, 9))
        if prev != "^" and ch.chance(20): r += ["-"] * (1 if ch.chance(60) else ch.int(2, 5) if ch.chance(60) else ch.int(2, 14))
        if depth < 2 and ch.chance(12): 
            r.append("("); depth += 1; rel = False
            if ch.chance(15): r.append("NOT ")
            if ch.chance(15): r.append("-")
        if ints: r.append(str(ch.int(0, 9)))
        elif env.nums and ch.chance(40): r.append(ch.pick(env.nums))
        else: r.append(numlit(ch))
        if depth and ch.chance(40): r.append(")"); depth -= 1; rel = True
    r.append(")" * depth)
    return "".join(r)

def gen(ch):
    env = Env(nums=["A", "B", "X1"], strs=["S$"], arrs={"V": (3,)})
    env.risk = 8
    inter = ch.chance(60)
    style = ch if ch.chance(50) else None
    sets = [(n, numlit(ch)) for n in env.nums]
    pre = [[("let", var(n), ("neg", num(v)) if ch.chance(30) else num(v), False)] for n, v in sets]
    pre.append([("let", var("S$"), ("str", strtext(ch, 8)), False)])
    pre.append([("let", idx("V", num(ch.int(0, 3))), num(numlit(ch)), False)])
    exprs = []
    for _ in range(ch.int(1, 8)):
        if ch.chance(45):
            t = chain(ch, env)
            try: e = parse.Parser(t, {}).nexpr()
            except parse.Bad: raise Discard("chain")
            exprs.append(e if style else ("raw", t, e))
        else: exprs.append(tree(ch, env, ch.int(1, 4)))
    depth = max(nops(e[2] if e[0] == "raw" else e) for e in exprs)
    if inter:
        s = Session()
        for st in pre: s.stmts(st, style)
        for e in exprs:
            try:
                if e[0] == "raw": s.imm("PRINT " + e[1])
                else: s.stmts([("print", [("e", e)], False)], style)
            except Discard as d:
                if "NaN" in str(d): raise
                raise
        run = s.finish()
        ok = len(exprs)
    else:
        lines = [(10 * (i + 1), st) for i, st in enumerate(pre + [[("print", [("e", e[2] if e[0] == "raw" else e)], False)] for e in exprs])]
        run, vm = run_lines(lines, style, ctx=ch)
        ok = len(exprs)
    return dict(runs=[run], n=ok, ops=depth)

def nops(e):
    k = e[0]
    if k == "bin": return 1 + nops(e[2]) + nops(e[3])
    if k in ("neg", "not"): return 1 + nops(e[1])
    if k == "par": return nops(e[1])
    if k == "fn": return 1 + sum(nops(a) for a in e[2] or ())
    if k == "idx": return 1 + sum(nops(a) for a in e[2])
    return 0

def nontrivial(c): return c["n"] >= 3 and c["ops"] >= 3
def classes(c):
    r = ["interactive" if c["runs"][0]["stdin"] else "program"]
    r += ["with error"] if c["runs"][0]["errors"] else ["without error"]
    r.append("operators %s" % ("0-2" if c["ops"] < 3 else "3-7" if c["ops"] < 8 else "8+"))
    return r
