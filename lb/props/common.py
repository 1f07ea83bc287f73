from ..lang import *
from ..gen import *
from ..session import Session
from ..judge import judge_runs, file_run, perform
from ..engine import Discard
from .. import parse

def judge(case, sut): return judge_runs(case, sut)

def run_lines(lines, style=None, replies=None, max_steps=20000, args=("-q",), setup=None, faketime=None, crunch=False, ctx=None, p=18):
    """Model run of a program file: returns (run dict, vm)."""
    if ctx: lines = context(ctx, lines, p)
    texts = program_text(lines, style)
    stdin = []
    def reader():
        s = replies() if replies else None
        if s is None: return None
        stdin.append(s + "\n")
        return s + "\n"
    vm = Vm(reader=reader, max_steps=max_steps)
    if setup: setup(vm)
    vm.load(texts, lines)
    how = vm.run_program()
    vm.how = how
    return file_run(texts, vm, "".join(stdin), args), vm


def crunched(stmts, ch, crunch_p=80):
    """Text of the statements with blanks around keywords left out, or None if that would not read as the same tokens."""
    toks = ltok(stmts)
    kw = lambda t: t[0] == "k"
    r = []
    for i, t in enumerate(toks):
        k, s = t
        if i:
            p = toks[i - 1]
            if k == "R": r.append(s and (" " if not s[:1].isalpha() or ch.chance(30) else "")); r.append(s); continue
            if p[0] == "R": pass
            elif kw(p) or kw(t):
                if not ch.chance(crunch_p): r.append(" ")
            elif need_space(p, t): r.append(" ")
            elif ch.chance(15): r.append(" ")
        if k in "kn" and ch.chance(15): s = s.lower()
        r.append(s)
    text = "".join(r)
    try:
        if parse.parse_line(text, {}, True) != parse.parse_line(text_of(stmts), {}, False): return None
    except parse.Bad: return None
    return text

def rewriter(ch, did=lambda k: None, pp=0, pl=0, pq=0):
    """A function that rewrites statements: with redundant parentheses, optional LET left out or put in, ? for PRINT (in percent of the places)."""
    def ex(e):
        k = e[0]
        if k == "bin": r = ("bin", e[1], ex(e[2]), ex(e[3]))
        elif k in ("neg", "not"): r = (k, ex(e[1]))
        elif k == "par":
            r = (k, ex(e[1]))
        elif k == "idx": r = (k, e[1], tuple(ex(a) for a in e[2]))
        elif k == "fn": r = (k, e[1], None if e[2] is None else tuple(ex(a) for a in e[2]))
        else: r = e
        if pp and ch.chance(pp):
            did("parentheses")
            for _ in range(ch.pick([1, 1, 2, 5])): r = ("par", r)
        return r
    def lv(v): return v if v[0] == "var" else (v[0], v[1], tuple(ex(a) for a in v[2]))
    def st(s):
        k = s[0]
        if k == "let":
            m = s[3]
            if pl and ch.chance(pl): m = not m; did("LET")
            return (k, lv(s[1]), ex(s[2]), m)
        if k == "print":
            q = s[2]
            if pq and ch.chance(pq): q = not q; did("?")
            return (k, [(i[0], ex(i[1])) if len(i) > 1 else i for i in s[1]], q)
        if k == "for": return (k, s[1], ex(s[2]), ex(s[3]), None if s[4] is None else ex(s[4]))
        if k == "on": return (k, ex(s[1]), s[2], s[3])
        if k == "if":
            part = lambda p: ("stmts", sts(p[1])) if p is not None and p[0] == "stmts" else p
            return (k, ex(s[1]), part(s[2]), part(s[3])) + tuple(None if x is None else sts(x) for x in s[4:])
        if k == "read": return (k, [lv(v) for v in s[1]])
        if k == "dim": return (k, [(n, [ex(a) for a in es]) for n, es in s[1]])
        if k == "def": return (k, s[1], s[2], ex(s[3]))
        if k == "input": return (k, s[1], s[2], [lv(v) for v in s[3]])
        if k == "lineinput": return (k, s[1], s[2], lv(s[3]))
        if k == "randomize": return (k, None if s[1] is None else ex(s[1]))
        return s
    def sts(ss): return [st(s) for s in ss]
    return sts
