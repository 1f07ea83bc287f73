"""Allocation failures: programs and sessions in which the Nth request for memory (or all from the Nth on) fails, for N over the whole
run, against the run in which none fails."""
from .common import *
from ..judge import diff

VARIANTS = ["plain", "san"]
CASES = dict(quick=9000, thorough=150000)
RULE = "a request for memory failed after at least one quarter of the requests of the undisturbed run had succeeded"

def gen(ch):
    session = ch.chance(45)
    b = Builder(ch, items=ch.pick([2, 4, 7]), risk=3, stop=ch.chance(20), clear=True, rnd=False, ctx=30).build()
    lines = b.resolve()
    tl = program_text(lines)
    k = ch.upto(3)
    if k == 0:
        # names, arrays and functions in number
        n = ch.pick([20, 40, 90])
        more = [(60000 + i, "V%d%s=%s" % (i, "$" if i % 3 == 1 else "(1)" if i % 3 == 2 else "", '"x"+STR$(%d)' % i if i % 3 == 1 else "%d" % i)) for i in range(n)]
        tl = [l for l in tl if l[0] < 60000 and "END" not in l[1]] + more
    elif k == 1:
        tl = [l for l in tl if l[0] < 60000] + [(60001 + i, "REM %s" % ("x" * ch.int(0, 90))) for i in range(ch.pick([10, 60, 140]))]
    files = {"p.bas": file_text(tl)}
    mode = ch.pick([[], [], [], ["-p"], ["-l"], ["-n"], ["-c"], ["-k"]])
    if session:
        ls = []
        if any(len("%d %s" % l) > 120 for l in tl) or ch.chance(30): ls.append('LOAD "p.bas"')
        else: ls += ["%d %s" % l for l in tl]
        for _ in range(ch.int(1, 6)):
            t = ch.pick(["RUN", "LIST", "CONT", 'SAVE "q.bas"', 'LOAD "q.bas"', "RENUM", "RENUM 100,,7", "COMPILE", "NEW", "DIM ZQ(40),ZQ$(5,5)", 'ZZ$="abc"+STR$(1)', "DEF FNZ(X)=X+1", "PRINT FNZ(2)", "CLEAR", 'PRINT MID$("abcdef",2,3)+"x"', "FOR I=1 TO 3:PRINT I:NEXT", "READ A$", 'INPUT A$', "PRINT LOG(0)", "PRINT )", "5 PRINT 1", "5", text_of(b.simples(2))])
            if len(t) <= 120: ls.append(t)
        stdin = "\n".join(ls) + "\n"
        args = ["-q"] + (["-k"] if mode == ["-k"] else [])
    else:
        stdin = "1\n2\nx\n" * 3
        args = ["-q"] + mode + ["p.bas"]
    return dict(files=files, args=args, stdin=stdin, variant="san" if ch.chance(20) else "plain", at=ch.int(0, 1000), persist=int(ch.chance(40)), last=ch.int(0, 30) if ch.chance(15) else None, share=0)

def judge(case, sut):
    run = dict(files=case["files"], args=case["args"], stdin=case["stdin"], variant=case["variant"])
    a = perform(run, sut)
    if a.hung() or a.signal() or a.code(): raise Discard("does not end by itself")
    if not a.allocs: raise Discard("no allocations")
    at = max(1, a.allocs - case["last"]) if case["last"] is not None else 1 + case["at"] * (a.allocs - 1) // 1000
    case["share"] = at * 100 // a.allocs
    r = perform(dict(run, failat=at, persist=case["persist"]), sut)
    what = "request %d of %d for memory failed (%r): " % (at, a.allocs, case["args"])
    if r.hung() or r.signal() or "Sanitizer" in r.err or "runtime error:" in r.err: return what + r.describe() + ": " + r.err[-600:]
    if r.code() == 0: return what + "the interpreter went on to the end, with exit status 0; standard error %r, %s" % (r.err[-200:], diff(a.out, r.out))
    if not a.err.startswith(r.err[:r.err.rfind("\n", 0, -1) + 1]): return what + "standard error: %r, undisturbed %r" % (r.err[-300:], a.err[-300:])
    if "memory" not in r.err.lower(): return what + "it was not reported: %r" % r.err[-300:]
    if not a.out.startswith(r.out): return what + "the output is not what it was before: " + diff(a.out, r.out)
    return None

def nontrivial(c): return c["share"] >= 25
def classes(c): return ["session" if c["args"][-1] != "p.bas" else "file", c["variant"], "persistent" if c["persist"] else "once", "quarter %d" % min(3, c["share"] // 25)] + [x for x in c["args"] if x in ("-p", "-l", "-n", "-c", "-k")]
