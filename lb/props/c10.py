"""INPUT and LINE INPUT: statements of every form fed with adversarial replies; reference interpreter."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=45000, thorough=400000)
RULE = "at least two INPUT/LINE INPUT statements and at least one accepted reply"

def good_num(ch):
    s = ch.pick(["", "", "", "-", "+"]) + numlit(ch)
    return ch.pick(["", "", " ", "  ", "\t"]) + s + ch.pick(["", "", " ", "\t "])
BADNUM = ["abc", "", "12a", "1 2", "--1", "1e", "0x10", "nan", "inf", "INFINITY", "-inf", "1.2.3", "$5", '"5"', "5;", ".", "+", "-", "1E+", "five", "+-3", "- 3", "1,2"]
def text(ch):
    k = ch.upto(6)
    if ch.chance(6): return (strtext(ch, 12).replace(",", "") + "z" * 100)[:ch.int(20, 100)]
    if k == 0: return ch.pick(["", " ", "  lead", "trail  ", '"quoted"', "a b", "THEN 10", "12"])
    return "".join(c for c in strtext(ch, 20) if c != ",")

def reply_for(ch, kinds):
    """a reply for targets of the given kinds, mostly good"""
    k = ch.weighted([(10, "good"), (2, "bad"), (2, "few"), (2, "many"), (1, "wild")])
    if k == "wild": return reply(ch)
    its = [text(ch) if x == "s" else good_num(ch) for x in kinds]
    if k == "bad":
        i = ch.upto(len(its) - 1)
        its[i] = ch.pick(BADNUM)
    if k == "few": its = its[:ch.upto(len(its) - 1)]
    if k == "many": its = its + [ch.pick(["", "7", "x", " "]) for _ in range(ch.int(1, 3))]
    r = ",".join(its)
    if k == "many" and ch.chance(30): r += ","
    return r

def overlong(ch, r=""):
    n = (ch.magic(126, 700) if ch.chance(70) else ch.pick([800, 1023, 1024, 1025, 2000, 4096, 5000, 9000])) if ch.chance(18) else ch.pick([126, 127, 128, 129, 200, 253, 254, 255, 256, 257, 381, ch.int(125, 600)])
    body = ch.pick(["x", "1", "1,", " ", "ab, ", "12,y,", '"', "5,6,7,"])
    return ((r + ch.pick(["", ",", " "]) if ch.chance(40) else "") + body * n)[:n - 2] + ch.pick(["", "*x", ",5", "7", " 7"])

def gen(ch):
    lines = []
    kinds_seq = []
    names_n = ["X", "Y", "N1"]; names_s = ["S$", "T$"]
    m = ch.size(1, 8)
    def target(s):
        k = ch.upto(5)
        if k == 0: return idx("A$" if s else "A", num(ch.int(0, 3)))
        if k == 1: return idx("B$" if s else "B", num(ch.int(0, 2)), var("X") if ch.chance(20) and not s else num(ch.int(0, 2)))
        if k == 2 and ch.chance(20): return idx("A$" if s else "A", ch.pick([num(11), ("neg", num(1)), num("1.5"), fn("ABS", var("Y"))]))
        return var(ch.pick(names_s if s else names_n))
    def inp():
        st = inp1()
        if ch.chance(40): last[:] = [v for v in (st[3] if st[0] == "input" else [st[3]]) if v[0] == "var" or all(a[0] == "num" for a in v[2])]
        return st
    last = []
    def inp1():
        p = strtext(ch, 12) if ch.chance(50) else None
        sep = ch.pick([";", ",", ""]) if p is not None else None
        if ch.chance(25):
            kinds_seq.append("L")
            return ("lineinput", p, sep, target(True))
        ks = [ch.pick("nns") for _ in range(ch.size(1, 5))]
        kinds_seq.append(ks)
        return ("input", p, sep, [target(k == "s") for k in ks])
    def show(v):
        return [("e", ("str", "<")), (";",), ("e", v), (";",), ("e", ("str", ">")), (";",)]
    def showall(full=False):
        vs = [var(v) for v in names_n + names_s] + [idx("A", num(i)) for i in range(3)] + [idx("A$", num(i)) for i in range(3)]
        r = []
        if not full: vs = ch.shuffle(vs)[:4] + last
        for v in vs: r += show(v)
        return ("print", r[:-1], False)
    sess = ch.chance(25)
    for i in range(m):
        st = inp()
        k = ch.upto(4)
        if k == 0: ss = [("print", [("e", ("str", "q%d" % i)), (";",)], False), st, ("print", [("e", ("str", "r")), (",",), ("e", var("X"))], False)]
        elif k == 1: ss = [("if", num(1), ("stmts", [st, ("print", [("e", var("S$")), (";",)], False)]), ("stmts", [("print", [("e", ("str", "no"))], False)]))]
        elif k == 2: ss = [("for", "K", num(1), num(2), None), st, ("next", ("K",))]
        else: ss = [st]
        lines.append((10 * (i + 1), ss))
        if ch.chance(50): lines.append((10 * (i + 1) + 5, [showall()]))
    if sess: lines = context(ch, lines, 25)
    lines.append((5000, [showall(True)] if not sess else [showall()]))
    if sess: lines.append((5001, [showall()]))
    # replies: a stream in step with the statements as far as it can be told
    nrep = ch.size(1, 14)
    reps = []
    for q in range(nrep):
        ks = kinds_seq[min(q, len(kinds_seq) - 1)]
        if ks == "L": reps.append(ch.pick([strtext(ch, 40), "  a, b ,c  ", "", '"x,y"', " ", "1,2,3", "\t tab", "x" * ch.int(100, 126)]))
        else: reps.append(reply_for(ch, ks))
    if ch.chance(8): # many that are refused, one after another
        i = ch.upto(len(reps))
        reps[i:i] = [ch.pick(["abc", "1 2", "x,y,z", "1e", "--", '"5"']) for _ in range(ch.int(10, 60))]
    reps = [r[:126] for r in reps]
    if ch.chance(12): # too long for the buffer: refused whole
        for _ in range(ch.int(1, 3)): reps.insert(ch.upto(len(reps)), overlong(ch, ch.pick(reps)))
    last_open = ch.chance(10)
    state = [0]
    def rd():
        i = state[0]; state[0] += 1
        return reps[i] if i < len(reps) else None
    if not sess:
        run, vm = run_lines(lines, replies=rd, max_steps=3000, ctx=ch, p=25)
        # replies not consumed stay unread
        used = state[0] >= len(reps)
        if last_open and run["stdin"].endswith("\n") and reps and state[0] >= len(reps) and reps[-1] != "": run["stdin"] = run["stdin"][:-1]
        elif not used and ch.chance(50): run["stdin"] += "".join(r + "\n" for r in reps[state[0]:])
    else:
        s = Session(rd, max_steps=3000)
        for n, t in program_text(lines): s.line(n, t)
        if ch.chance(60): s.run()
        for _ in range(ch.size(0, 4)):
            if s.ended: break
            st = inp()
            s.stmts([st, showall()] if len(text_of([st, showall()])) < 126 else [st])
            if s.ended: break
            t = text_of([("print", [("e", var("S$")), (";",), ("e", var("X"))], False)])
            s.imm(t)
        run = s.finish(); vm = s.vm
    return dict(runs=[run], inputs=len(kinds_seq), replies=min(state[0], len(reps)), f=sorted(vm.features & {"more", "invalid", "extra", "eof", "long"}))

def nontrivial(c): return c["inputs"] >= 2 and c["replies"] >= 1
def classes(c): return c["f"] + ["inputs %d" % min(c["inputs"], 5)]
