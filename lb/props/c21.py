"""Programs with the blanks around keywords left out, run with --keywords-anywhere, against the reference interpreter running the
spaced program; from a file, loaded, or typed in."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=14000, thorough=300000)
RULE = "at least 5 blanks beside keywords left out, in lines executed or not"

KWTEXT = ["REM", "GOTO10", "TO", "a to b", "PRINTX", "for", "Then", "ORANGE", "DATA x", "ELSE", "STOP", "notes", "Band", "score", "IF"]

def renamed(x, a, b):
    """the name a everywhere replaced by b"""
    if isinstance(x, str): return b if x == a else x
    if isinstance(x, list): return [renamed(y, a, b) for y in x]
    if isinstance(x, tuple):
        if x and x[0] in ("str", "rem", "data", "num"): return x
        return tuple(renamed(y, a, b) for y in x)
    return x

def gen(ch):
    b = Builder(ch, items=ch.pick([3, 5, 8]), risk=2, input=ch.chance(30), stop=False, rnd=False)
    # names next to keywords must be free of keywords; strings, data and remarks are full of them
    if ch.chance(60):
        b.emit(("let", var(b.env.strs[0]), ("str", " ".join(ch.pick(KWTEXT) for _ in range(ch.int(1, 3)))), ch.chance(30)))
    b.build()
    if ch.chance(60):
        its = [ch.pick(KWTEXT) for _ in range(ch.int(1, 4))]
        its = [(t, t) if ch.chance(70) else ('"%s"' % t, t) for t in its]
        b.emit(("rem", ch.pick(KWTEXT)))
        b.lines.insert(0, [[], [("data", its)]])
        b.lines.insert(1, [[], [("read", [var(b.env.strs[0]) for _ in its])] + [("print", [("e", var(b.env.strs[0]))], False)]])
        b.lines.insert(2, [[], [("restore", None)]])
        if ch.chance(50): b.lines.insert(2, [[], [("rem", " ".join(ch.pick(KWTEXT) for _ in range(3)))]])
    lines = b.resolve()
    for _ in range(ch.weighted([(7, 0), (2, 1), (1, 2)])):
        # a long name, which still ends where a keyword begins
        which = ch.pick([b.env.nums, b.env.strs])
        i = ch.upto(len(which) - 1)
        new = "".join(ch.pick("QWXYZVJKQZ") for _ in range(ch.int(4, 9))) * 9
        new = new[:ch.int(5, ch.pick([20, 40, 70]))] + ch.pick(["", "", "7", "12"]) + "$" * which[i].endswith("$")
        if ok_name(new) and new not in which:
            lines = [(n, renamed(ss, which[i], new)) for n, ss in lines]
            which[i] = new
    if ch.chance(40):
        sts = rewriter(ch, pp=ch.pick([10, 40]), pl=ch.pick([0, 50]), pq=ch.pick([0, 30]))
        lines = [(n, sts(ss)) for n, ss in lines]
    p = ch.pick([100, 100, 90, 60])
    tl, removed, crn = [], 0, 0
    for n, ss in lines:
        t0 = text_of(ss)
        t = crunched(ss, ch, p)
        if t is None: t = t0
        else:
            d = t0.count(" ") - t.count(" ")
            removed += max(d, 0); crn += 1
        if len("%d %s" % (n, t)) > 250: raise Discard("long")
        tl.append((n, t))
    mode = ch.weighted([(6, "file"), (2, "load"), (2, "type")])
    if mode != "file" and any(len("%d %s" % l) > 120 for l in tl): mode = "file"
    replies = lambda: reply(ch)
    if mode == "file":
        stdin = []
        def reader():
            s = replies(); stdin.append(s + "\n"); return s + "\n"
        vm = Vm(reader=reader)
        vm.load(tl, lines)
        vm.run_program()
        run = file_run(tl, vm, "".join(stdin), ch.pick([["-q", "-k"], ["-k", "-q"], ["-q", "--keywords-anywhere"], ["-qk"][:0] or ["-q", "-k"]]))
    else:
        s = Session(replies=replies, crunch=True)
        files = {}
        if mode == "load": files["p.bas"] = file_text(tl); s.load("p.bas", tl)
        else:
            for n, t in tl: s.line(n, t)
        s.run()
        if ch.chance(40): s.list()
        s.stmts([("print", [x for v in b.env.nums + b.env.strs for x in (("e", var(v)), (";",))], False)])
        run = s.finish(["-q", "-k"], files=files)
    return dict(runs=[run], removed=removed, lines=crn, mode=mode)

def nontrivial(c): return c["removed"] >= 5
def classes(c): return [c["mode"], "removed %s" % ("<5" if c["removed"] < 5 else "<20" if c["removed"] < 20 else "20+")]
