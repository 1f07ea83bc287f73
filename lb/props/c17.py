"""RENUM: programs with every kind of line reference and every kind of number that is not one; the expected text is rendered from
the syntax tree with mapped references; behaviour before and after by the reference interpreter."""
import re
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=16000, thorough=250000)
RULE = "at least 4 references to line numbers in the program and a RENUM that was accepted and changed at least one line number"

def noise(ch, nums):
    """statements with numbers that are not line references, equal to line numbers"""
    n = lambda: num(ch.pick(nums))
    t = str(ch.pick(nums))
    k = ch.upto(10)
    if k == 0: return ("print", [("e", n()), (",",), ("e", n()), (";",), ("e", n())], ch.chance(30))
    if k == 1: return ("print", [("e", ("str", "GOTO %s THEN %s" % (t, t)))], False)
    if k == 2: return ("data", [(t, t), ("GOTO " + t, "GOTO " + t), ('"THEN %s"' % t, "THEN " + t), (t, t)])
    if k == 3: return ("let", var("Q7"), n(), ch.chance(30))
    if k == 4: return ("for", "Q8", n(), n(), n())
    if k == 5: return ("print", [("tab", num(3)), (";",), ("e", op("-", n(), n()))], False)
    if k == 6: return ("let", idx("Q9", num(3)), op("+", n(), n()), False)
    if k == 7: return ("randomize", num(t))
    if k == 8: return ("def", "FNQ", "Q7", op("*", var("Q7"), n()))
    if k == 9: return ("let", var("Q7"), op("AND", n(), n()), False)
    return ("print", [("e", ("str", t)), (";",), ("e", op("<", n(), n()))], False)

def refline(ch, tg):
    """statements with references, as dead or live code"""
    t = lambda: ch.pick(tg)
    k = ch.upto(9)
    if k == 0: return [("goto", t())]
    if k == 1: return [("gosub", t())]
    if k == 2: return [("on", var("Q7"), "GOTO", [t() for _ in range(ch.int(1, 5))])]
    if k == 3: return [("on", op("-", var("Q7"), num(10)), "GOSUB", [t() for _ in range(ch.int(1, 5))])]
    if k == 4: return [("if", op("=", var("Q7"), num(10)), ("line", t()), ("line", t()))]
    if k == 5: return [("if", op(">", var("Q7"), num(20)), ("line", t()), None)]
    if k == 6: return [("restore", t())]
    if k == 7: return [("if", var("Q7"), ("stmts", [("goto", t())]), ("stmts", [("gosub", t())]))]
    if k == 8: return [("if", num(10), ("stmts", [("restore", t()), ("gosub", t())]), ("stmts", [("if", var("Q7"), ("line", t()), ("line", t()))]))]
    return [("restore", t()), ("on", num(ch.int(0, 3)), "GOSUB", [t(), t()])]

def mapping(nums, new, old, inc):
    """number -> number, or the line at which it must be refused: (line, new, previous)"""
    m = {}; prev = 0; x = new
    for n in nums:
        if n >= old:
            if x <= prev or x > 65535: return None, (n, x, prev)
            m[n] = prev = x
            x += inc
            if x > 4294967295: x &= 4294967295
        else: m[n] = prev = n
    return m, None

PH = re.compile("\x01(\\d+)(?:=([^\x01]*))?\x01")

def spelt(ch, r):
    """a reference, marked; sometimes written in another way"""
    if not ch.chance(7): return "\x01%d\x01" % r
    s = str(r)
    forms = ["0" + s, "00" + s, s + ".", s + ".0", s + "E0", s + "e+0", "%d0E-1" % r]
    if r % 10 == 0 and r: forms += ["%dE1" % (r // 10), "%s.%sE%d" % (s[0], s[1:], len(s) - 1)]
    return "\x01%d=%s\x01" % (r, ch.pick(forms))

def gen(ch):
    crunch = ch.chance(25)
    b = Builder(ch, items=ch.pick([2, 4, 6]), stop=ch.chance(20), risk=2, gosub=True, rnd=False).build()
    k = len(b.lines)
    nums = numbering(ch, k + 8, 60000)[:k]
    lines = b.resolve(nums)
    nums = [n for n, _ in lines]
    # dead code at the end with references of every form
    last = nums[-1]
    tail = []
    missing = [x for x in (1, 7, 10, 99, 100, 1000, 12345, 65535) if x not in nums][:3]
    for i in range(ch.size(0, 6)):
        ss = []
        if ch.chance(40): ss.append(noise(ch, nums))
        if ss and ss[-1][0] == "data" and ch.chance(50): ss = ss[:-1]
        ss += refline(ch, nums + (missing if ch.chance(25) else []))
        if ss[-1][0] != "if" and ch.chance(50): ss.append(noise(ch, nums))
        if ss[-1][0] not in ("if",) and ch.chance(20): ss.append(("rem", " GOTO %d" % ch.pick(nums)))
        tail.append((last + 1 + i, ss))
    if tail and tail[-1][0] > 65000: raise Discard("numbers")
    lines += tail
    # noise in the program itself
    lines = [(n, [noise2(ch, nums)] + ss if ch.chance(15) else ss) for n, ss in lines]
    nref = sum(len(refs(ss)) for _, ss in lines)
    # render with marked references
    texts = []
    for n, ss in lines:
        ms = [relabel(s, lambda r: spelt(ch, r)) for s in ss]
        plain = lambda t: PH.sub(lambda m: m.group(2) or m.group(1), t)
        if crunch:
            import copy
            # lay out with marks, and check that the text without them reads as intended
            t = layout_crunched(ms, ch)
            try:
                if parse.parse_line(plain(t), {}, True) != parse.parse_line(text_of(ss), {}, False): t = None
            except parse.Bad: t = None
            if t is None: t = text_of(ms)
            try:
                if parse.parse_line(plain(t), {}, True) != parse.parse_line(text_of(ss), {}, False): raise Discard("not crunchable")
            except parse.Bad: raise Discard("not crunchable")
        else:
            t = text_of(ms, ch if ch.chance(30) else None)
        texts.append((n, t))
    plain = lambda t: PH.sub(lambda m: m.group(2) or m.group(1), t)
    s = Session(crunch=crunch, max_steps=3000)
    marked = dict(texts)
    files = {}
    if all(len("%d %s" % (n, plain(t))) <= 126 for n, t in texts) and ch.chance(40):
        for n, t in texts: s.line(n, plain(t))
    else:
        files["p.bas"] = "".join("%d %s\n" % (n, plain(t)) for n, t in texts)
        if any(len(l) > 254 for l in files["p.bas"].split("\n")): raise Discard("long")
        s.load("p.bas", [(n, plain(t)) for n, t in texts])
    if ch.chance(60): s.run()
    renums = changed = refused = 0
    for _ in range(ch.int(1, 3)):
        cur = sorted(marked)
        new, old, inc = 10, 1, 10
        k = ch.upto(6)
        rn = lambda: ch.pick([1, 5, 10, 100, 1000, 50000, 65000, 65535, ch.int(1, 65535)]) if ch.chance(85) else ch.pick([0, 65536, 70000, 4294967295, 99999999999])
        ro = lambda: ch.pick(cur) + (ch.pick([-1, 0, 1]) if ch.chance(30) else 0)
        ri = lambda: ch.pick([1, 2, 5, 10, 100, 3]) if ch.chance(90) else ch.pick([0, 1000, 65535, 4294967295])
        w = ch.pick(["RENUM", "RENUM", "RENUMBER", "renum"])
        if k == 0: typed = w
        elif k == 1: new = rn(); typed = "%s %d" % (w, new)
        elif k == 2:
            old = ro(); below = [n for n in cur if n < old]
            new = (below[-1] if below else 0) + ch.int(1, 50) if ch.chance(70) else rn()
            typed = "%s %d,%d" % (w, new, old)
        elif k == 3:
            old = ro(); below = [n for n in cur if n < old]
            new = (below[-1] if below else 0) + ch.int(0 if ch.chance(20) else 1, 50) if ch.chance(80) else rn(); inc = ri(); typed = "%s %d , %d,%d" % (w, new, old, inc)
        elif k == 4: old = ro(); typed = "%s ,%d" % (w, old)
        elif k == 5: inc = ri(); typed = "%s,,%d" % (w, inc)
        else: new = rn(); inc = ri(); typed = "%s %d,1,%d" % (w, new, inc)
        new = min(new, 4294967295); old = min(max(old, 0), 4294967295)
        s.type(typed)
        m, why = mapping(cur, new, old, inc)
        renums += 1
        if m is None:
            refused += 1
            s.say("Cannot renumber line %d to %d after line %d" % why)
        else:
            if any(a != b_ for a, b_ in m.items()): changed += 1
            marked = {m[n]: PH.sub(lambda q: "\x01%d\x01" % m[int(q.group(1))] if int(q.group(1)) in m else q.group(), t) for n, t in marked.items()}
            s.stored = {n: plain(t) for n, t in marked.items()}
            s.changed()
        s.list()
        if ch.chance(15): s.cont() if s.vm.cont is None else None
        if ch.chance(70) or _ == 0: s.run()
        if ch.chance(15) and s.stored:
            n = ch.pick(sorted(s.stored))
            s.delete(n); del marked[n]
            if not marked: break
        if ch.chance(20):
            n = ch.pick(sorted(marked)) + 1
            t = text_of([("goto", "\x01%d\x01" % ch.pick(sorted(marked)))])
            if n not in marked and n < 65535: s.line(n, plain(t)); marked[n] = t
    args = ["-q", "-k"] if crunch else ["-q"]
    run = s.finish(args, files=files)
    return dict(runs=[run], refs=nref, changed=changed, refused=refused, crunch=crunch, lines=len(lines))

def noise2(ch, nums):
    s = noise(ch, nums)
    return s if s[0] not in ("data", "for", "def", "rem") else ("print", [("e", num(ch.pick(nums)))], False)

def layout_crunched(ms, ch):
    r = []
    toks = ltok(ms)
    for i, (k, t) in enumerate(toks):
        if i:
            p = toks[i - 1]
            if k == "R": r.append(t and " ")
            elif p[0] == "k" or k == "k":
                if ch.chance(25): r.append(" ")
            elif need_space(p, (k, t)): r.append(" ")
        r.append(t)
    return "".join(r)

def nontrivial(c): return c["refs"] >= 4 and c["changed"] >= 1
def classes(c): return ["crunched" if c["crunch"] else "spaced"] + (["refused"] if c["refused"] else []) + ["references %d+" % (c["refs"] // 8 * 8)]
