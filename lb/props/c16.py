"""SAVE and LOAD: round trips in one session, another session, the command line; malformed and missing files; failing writes."""
import random
from .common import *
from .c15 import body

VARIANTS = ["plain"]
CASES = dict(quick=22000, thorough=250000)
RULE = "a program of at least 2 lines was saved and loaded again, or a file that cannot be loaded was loaded over a program"

def load_file(data):
    """The program in a file, or None if it is malformed."""
    out = []
    lines = data.split("\n")
    if lines and lines[-1] == "": lines.pop()
    for l in lines:
        if not l or len(l) > 254: return None
        i = 0
        while i < len(l) and l[i] in "0123456789": i += 1
        if i == 0: return None
        n = int(l[:i])
        if n == 0 or n > 4294967295 or out and n <= out[-1][0]: return None
        t = l[i:]
        out.append((n, t[1:] if t[:1] == " " else t))
    return out

def grown():
    """Known finding: RENUM can lengthen a line beyond what a file line may hold."""
    refs = ",".join(["1"] * 57)
    s = Session()
    s.line(1, "X=0")
    s.line(2, "ON X GOTO " + refs)
    s.type("RENUM 60000")
    want = {60000: "X=0", 60010: "ON X GOTO " + refs.replace("1", "60000")}
    s.stored = want
    s.save("f.bas"); s.new(); s.load("f.bas", sorted(want.items())); s.list()
    return dict(runs=[s.finish()])

def fixed_cases():
    r = [("renum-grown-line", grown())]
    s = Session(); s.line(10, "PRINT 1"); s.type('SAVE "/dev/full"'); s.list()
    r.append(("save-to-full-device", dict(runs=[s.finish(complain=True)])))
    for name, data in [("no-newline-at-end", "10 PRINT 1\n20 PRINT 2"), ("unnumbered", "10 PRINT 1\nPRINT 2\n"), ("empty-line", "10 PRINT 1\n\n20 PRINT 2\n"), ("line-zero", "0 PRINT 1\n")]:
        s = Session(); s.line(5, 'PRINT "old"'); ls = load_file(data); s.load("g.bas", ls); s.list(); s.run()
        r.append((name, dict(runs=[s.finish(files={"g.bas": data}, complain=ls is None)])))
    return r

def malformed(ch, good):
    """a file, usually spoilt in one place"""
    lines = ["%d %s" % x for x in good]
    k = ch.weighted([(3, "order"), (2, "dup"), (3, "nonum"), (3, "empty"), (3, "long"), (2, "zero"), (2, "huge"), (3, "fine"), (1, "nothing"), (2, "noeol"), (2, "edge"), (1, "blank"), (1, "form")])
    i = ch.upto(len(lines) - 1) if lines else 0
    if not lines: k = "nothing"
    end = "\n"
    if k == "order" and len(lines) > 1:
        j = ch.upto(len(lines) - 1)
        lines[i], lines[j] = lines[j], lines[i]
    elif k == "dup": lines.insert(i, lines[i])
    elif k == "nonum": lines[i] = ch.pick(["PRINT 1", " 10 PRINT", "\t5 X", "-10 X", "REM", "x"]) if ch.chance(60) else lines[i].lstrip("0123456789")
    elif k == "empty": lines.insert(ch.upto(len(lines)), "")
    elif k == "blank": lines.insert(ch.upto(len(lines)), " ")
    elif k == "long" and ch.chance(30):
        # what is beyond the buffer looks like a line
        lines[i] += "x" * (ch.pick([253, 254, 255]) - len(lines[i])) + "%d PRINT %d" % (good[i][0] + 1, good[i][0])
    elif k == "long": lines[i] += "x" * (ch.pick([254, 255, 256, 257, 300, 508, 509, 510, 511, 600]) - len(lines[i]))
    elif k == "zero": lines.insert(0, ch.pick(["0 REM", "0", "00 REM"]))
    elif k == "huge": lines.append(ch.pick(["4294967295 REM", "4294967296 REM", "99999999999 REM", "18446744073709551626 REM", "4294967294 REM"]))
    elif k == "nothing": lines = []
    elif k == "noeol": end = ""
    elif k == "edge":
        n = good[i][0]
        lines[i] = ch.pick(["%d" % n, "%d " % n, "%05d x" % n, "%dPRINT 1" % n, "%d\tREM" % n, "%d  REM two" % n, "%d %s" % (n, "y" * (253 - len(str(n)))), "%d %s" % (n, "y" * (254 - len(str(n)))), "%d:" % n])
    elif k == "form": lines[i] = lines[i] + "\r"
    return "\n".join(lines) + (end if lines else "")

def gen(ch):
    s = Session(max_steps=4000)
    st = dict(kind=[], n=0)
    runs = []
    files = {}
    complain = False
    valid = ch.chance(65)
    if valid:
        lines, b = program(ch, items=4, risk=2)
        tl = program_text(lines, ch if ch.chance(40) else None)
    else:
        tl = [(n, body(ch)) for n in numbering(ch, ch.size(1, 12))]
        tl = [(n, t) for n, t in tl if not ("\r" in t or "\0" in t)]
    if ch.chance(2): # many lines
        n0 = ch.pick([250, 255, 256, 500, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1100]) + ch.int(0, 3)
        k = ch.int(1, 40)
        tl = [(k * (i + 1), ch.pick(["REM %d" % i, "X=X+1", "PRINT %d;" % i]) if i % 7 == 0 else "REM") for i in range(n0)]
    if not tl: raise Discard("nothing")
    if ch.chance(20):
        # lines filled up to a length of their own
        for _ in range(ch.int(1, 3)):
            i = ch.upto(len(tl) - 1)
            n, x = tl[i]
            L = (ch.magic(40, 254) if ch.chance(30) else ch.int(40, 254) if ch.chance(20) else ch.pick([60, 80, 100, 119, 120, 121, 125, 126, 127, 128, 129, 150, 199, 200, 201, 220, 240, 252, 253, 254])) - len("%d " % n)
            fill = ch.pick([" ", " ", " ", ":REM" + "r" * 30, "\t", "   :"])
            if len(x) < L: tl[i] = (n, x + (fill * L)[:L - len(x)])
    fits = all(len("%d %s" % x) <= 126 for x in tl)
    st["n"] = len(tl)
    # how the program comes into memory
    if ch.chance(50) and fits:
        for n, t in (ch.shuffle(tl) if len(tl) < 40 and ch.chance(50) else tl): s.line(n, t)
        st["kind"].append("typed")
    else:
        files["a.bas"] = "".join("%d %s\n" % x for x in tl)
        ls = load_file(files["a.bas"])
        if ls is None: complain = True
        s.load("a.bas", ls)
        st["kind"].append("from file")
    def check():
        if ch.chance(60): s.list()
        if ch.chance(60): s.run()
    def edits():
        for _ in range(ch.size(1, 4)):
            k = ch.upto(3)
            if k == 0 and s.stored: s.delete(ch.pick(sorted(s.stored)))
            elif k == 1: s.line(ch.int(1, 300), "PRINT %d" % ch.int(0, 9))
            elif k == 2 and ch.chance(40): s.new()
            else: s.line(ch.int(1, 65535), body(ch).replace("\r", "").replace("\0", "") or "x")
    check()
    nsave = 0
    for _ in range(ch.size(1, 4)):
        k = ch.weighted([(5, "trip"), (4, "bad"), (1, "missing"), (1, "unwritable"), (2, "edit"), (1, "over")])
        st["kind"].append(k)
        if k == "trip" or k == "over":
            name = "f%d.bas" % nsave
            if k == "over" and nsave: name = "f0.bas" # replaces an earlier, perhaps longer, file
            nsave += 1
            if not s.have: continue
            s.save(name)
            saved = s.files[name]
            want = load_file(saved)
            if want is None: raise Discard("a line grew")
            if ch.chance(70): edits()
            if ch.chance(30): s.run()
            s.load(name, want)
            check()
        elif k == "bad":
            d = malformed(ch, [x for x in sorted(s.stored.items()) if len("%d %s" % x) < 250] if ch.chance(50) else [(n, "PRINT %d" % n) for n in numbering(ch, ch.int(1, 8))])
            name = "m%d.bas" % len(files)
            files[name] = d
            ls = load_file(d)
            s.load(name, ls)
            if ls is None: complain = True; st["kind"].append("refused")
            s.list()
            if ch.chance(40): s.run()
        elif k == "missing":
            s.load(ch.pick(["none.bas", "no/such", "nodir/a.bas", ".", "../", "/"]), None)
            complain = True
            check()
        elif k == "unwritable":
            if s.reports: continue
            s.type('SAVE "/dev/full"') if s.stored else s.type('SAVE "/dev/null"')
            complain = complain or bool(s.stored)
            check()
        else: edits(); check()
    s.list()
    run = s.finish(files=files)
    if complain: run["complain"] = True
    runs.append(run)
    # the file in other processes
    if s.files and ch.chance(70):
        name = ch.pick(sorted(s.files))
        data = s.files[name]
        want = load_file(data)
        if want is not None:
            st["kind"].append("other process")
            if ch.chance(50):
                s2 = Session(max_steps=4000)
                s2.load(name, want); s2.list(); s2.run()
                runs.append(s2.finish(files={name: data}))
            else:
                s2 = Session(max_steps=4000)
                s2.stored = dict(want); s2.have = True
                if s2.ensure(): s2.vm.run_program()
                s2.flush()
                runs.append(dict(files={name: data}, args=["-q", name], stdin="", out=s2.vm.output(), errors=s2.reports, code=None))
    if files and ch.chance(40):
        # from the command line
        name = ch.pick(sorted(files)); ls = load_file(files[name])
        r = dict(files={name: files[name]}, args=["-q", "--list", name], stdin="", code=1 if ls is None else 0, errors=[], out="".join("%5u %s\n" % x if 0 else "%5d %s\n" % x for x in ls or []))
        if ls is None: r["complain"] = True
        runs.append(r)
        st["kind"].append("command line")
    return dict(runs=runs, **st)

def nontrivial(c): return c["n"] >= 2 and ("trip" in c["kind"] or "refused" in c["kind"])
def classes(c): return sorted(set(c["kind"]))
