"""Number conversion: the same numeral through every route; PRINT/STR$/VAL round trip; rejection of what is not a number."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=60000, thorough=300000)
RULE = "a numeral with a fraction, exponent or 6 or more digits passes through at least 4 routes, or a text that is not a number is rejected"

def numeral(ch):
    """unsigned numeral of the form accepted in source"""
    k = ch.upto(10)
    if k == 10: # many characters
        m = ch.pick(["0", "1", "9", "3", "14", "000001"]) * ch.int(1, 40)
        f = ch.pick(["", ".", "." + ch.pick(["0", "5", "9", "27"]) * ch.int(1, 45)])
        return (m + f)[:ch.pick([23, 24, 25, 26, 31, 33, 48, 64, 65, 80])] + ch.pick(["", "", "E-%d" % ch.int(0, 60), "E+000%d" % ch.int(0, 9)])
    if k == 0: return str(ch.int(0, 20))
    if k == 1: return str(ch.int(0, 10 ** ch.int(1, 17)))
    if k == 2: return "%d.%d" % (ch.int(0, 99999), ch.int(0, 999999))
    if k == 3: return "." + "0" * ch.int(0, 8) + str(ch.int(0, 999999))
    if k == 4: return "0" * ch.int(0, 3) + str(ch.int(0, 99)) + "."
    if k == 5: return ch.pick(["999999", "9999995", "999999.5", "1000000", "99999.95", "123456.5", ".0001", ".00001", ".00009999995", "0.1", "100000", "1234565", "0.5", "2.675", "4294967296", "65535.5"])
    m = ch.pick(["1", "9", "1.5", ".25", "123456", "9.99999", "9.999995", "12345678", "0", "3.", str(ch.int(1, 999999)), "%d.%d" % (ch.int(0, 99), ch.int(0, 9999))])
    x = ch.int(0, 25) if ch.chance(70) else ch.int(26, 320)
    return m + ch.pick(["E", "e"]) + ch.pick(["", "-", "+"]) + ("0" if ch.chance(10) else "") + str(x)

BADTEXT = ["", "x", "1x", "1 2", "--1", "1-", "1.2.3", "1e", "E5", "$1", "1,2", "+", "-", ".", "0x10", "inf", "nan", "-inf", "1E5E5", "1e+", "&H10", "1#", "one", "1;", "+-1", "(1)"]

def blanks(ch): return ch.pick(["", "", "", " ", "  ", "\t"])

def gen(ch):
    sign = ch.pick(["", "", "-"])
    t = numeral(ch)
    items = []
    lines = []
    num_ = 0
    routes = ch.int(3, 8)
    style = ch if ch.chance(25) else None
    stmts = []
    replies = []
    neg = lambda e: ("neg", e) if sign else e
    X = var("X")
    show = lambda e: stmts.append([("print", [("e", e), (";",), ("e", fn("STR$", e)), (";",), ("e", op("=", e, var("Q")))], False)])
    stmts.append([("let", var("Q"), neg(num(t)), False)])
    used = set()
    bad = 0
    data = []
    for _ in range(routes):
        k = ch.upto(8)
        used.add(k)
        plus = "+" if not sign and ch.chance(25) else sign
        if k == 0: show(neg(num(t)))
        elif k == 1: show(fn("VAL", ("str", blanks(ch) + plus + t + blanks(ch))))
        elif k == 2:
            q = ch.upto(2)
            txt = plus + t
            raw = '"%s%s%s"' % (blanks(ch), txt, blanks(ch)) if q == 0 else txt
            data.append((raw, raw.strip('"')))
            stmts.append([("read", [X])]); show(X)
        elif k == 3:
            replies.append(blanks(ch) + plus + t + blanks(ch))
            stmts.append([("input", None, None, [X])]); show(X)
        elif k == 4: # conversion of the printed form
            show(fn("VAL", fn("STR$", var("Q"))))
            stmts.append([("print", [("e", op("=", fn("STR$", fn("VAL", fn("STR$", var("Q")))), fn("STR$", var("Q"))))], False)])
        elif k == 5: # computed numbers
            e = op(ch.pick(["*", "/", "+", "-"]), var("Q"), num(numeral(ch)))
            show(e)
        elif k == 6: # two numbers at once
            u = numeral(ch)
            replies.append("%s%s,%s%s" % (plus, t, blanks(ch), u))
            stmts.append([("input", None, None, [X, var("Y")])]); show(X); show(var("Y"))
        else:
            j = ch.upto(3)
            if j <= 1: b = ch.pick(BADTEXT)
            elif j == 2: b = t + ch.pick(["X", " 1", "$", ".5.", "e", "-", "\"", ";", "_"])
            else: # one character too many, before, after or inside
                c = CHARS[ch.upto(len(CHARS) - 1)]
                if c == ",": c = "%"
                p = ch.pick([0, len(t), len(t), ch.upto(len(t))])
                b = t[:p] + c + t[p:]
            bad += 1
            r = ch.upto(2)
            if r == 0:
                if '"' in b: continue
                stmts.append([("print", [("e", fn("VAL", ("str", blanks(ch) + b + blanks(ch))))], False)])
            elif r == 1:
                if '"' in b: continue
                raw = ch.chance(50) and b == b.strip(" \t") and b and not set(b) & set(',:"')
                data.append((b, b) if raw else ('"%s"' % b, b))
                stmts.append([("read", [X])]); show(X)
            else:
                if b == "1,2": continue
                replies.append(b); replies.append(t)
                stmts.append([("input", None, None, [X])]); show(X)
    rep = list(replies)
    def reader(): return rep.pop(0) if rep else None
    inter = ch.chance(50)
    if inter:
        s = Session(replies=reader)
        if data: s.line(10, text_of([("data", data)]))
        for st in stmts:
            if s.ended: break # a reply too long is asked for again, so the replies may run out
            s.stmts(st, style)
        run = s.finish()
    else:
        prog = stmts + ([[("data", data)]] if data else [])
        run, vm = run_lines([(5 * (i + 1), st) for i, st in enumerate(prog)], style, replies=reader, ctx=ch)
    return dict(runs=[run], routes=len(used), numeral=t, bad=bad)

def nontrivial(c):
    t = c["numeral"].lower()
    return c["bad"] > 0 or c["routes"] >= 3 and ("." in t or "e" in t or len(t) >= 6)
def classes(c):
    return ["interactive" if c["runs"][0]["args"] == ["-q"] else "program", "rejections" if c["bad"] else "numbers only"]
