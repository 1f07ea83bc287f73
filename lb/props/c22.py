"""A program and a random other layout of it: both must do the same (metamorphic), and what the reference interpreter says."""
from .common import *
from ..judge import OVERFLOW

VARIANTS = ["plain"]
CASES = dict(quick=24000, thorough=250000)
RULE = "at least three kinds of layout change were applied, over at least 4 lines"

def gen(ch):
    b = Builder(ch, items=ch.pick([3, 5, 7]), risk=3, input=ch.chance(25), rnd=False, stop=False).build()
    lines = b.resolve()
    shape = ch.pick(["any", "any", "wide", "dense"])
    changes = {}
    def did(k): changes[k] = changes.get(k, 0) + 1
    pp = ch.pick([0, 15, 40]); pl = ch.pick([0, 50]); pq = ch.pick([0, 50]); ps = ch.pick([0, 30, 90]); pr = ch.pick([0, 25])
    sts = rewriter(ch, did, pp, pl, pq)
    # parts of lines
    parts = []                 # (statements, number that must be kept or None)
    for n, ss in lines:
        ss = sts(ss)
        if pr and ch.chance(pr): parts.append(([("rem", strtext(ch, 12))], None)); did("REM line")
        if pr and ch.chance(10) and ss[-1][0] not in ("if", "rem", "data"): ss = ss + [("rem", strtext(ch, 6))]; did("REM at end")
        keep = n
        cur = []
        for i, s in enumerate(ss):
            cur.append(s)
            if i + 1 < len(ss) and ps and s[0] not in ("if",) and ch.chance(ps):
                parts.append((cur, keep)); cur = []; keep = None; did("split")
        if cur: parts.append((cur, keep))
    # new numbers; references follow the line that held the statement first
    nums = numbering(ch, len(parts), 65000)
    if nums != [p[1] for p in parts]: did("numbers")
    m = {p[1]: nums[i] for i, p in enumerate(parts) if p[1] is not None}
    new = [(nums[i], [relabel(s, lambda r: m.get(r, r)) for s in p[0]]) for i, p in enumerate(parts)]
    new = [(n, [s for j, s in enumerate(ss) if not (s[0] == "empty" and len(ss) == 1)] or [("rem", "")]) for n, ss in new]
    did("case and blanks")
    tl0 = program_text(lines)
    tl1 = []
    for n, ss in new:
        toks = ltok(ss)
        t = lay(toks, ch, shape)
        t = (ch.pick([" ", "  ", "\t"]) if ch.chance(15) else "") + t
        if toks and toks[-1][0] not in "DR" and ch.chance(15): t += ch.pick([" ", "\t", "  "])
        tl1.append((n, t))
    runs = []
    reps = []
    def rec(tl, ls, mode):
        i = [0]
        def reply_():
            if i[0] == len(reps): reps.append(reply(ch))
            i[0] += 1
            return reps[i[0] - 1]
        if mode == "file":
            stdin = []
            def reader():
                x = reply_(); stdin.append(x + "\n"); return x + "\n"
            vm = Vm(reader=reader); vm.load(tl, ls); vm.run_program()
            return file_run(tl, vm, "".join(stdin)), vm
        s = Session(replies=reply_)
        for n, t in tl: s.line(n, t)
        s.run()
        return s.finish(), s.vm
    mode = "type" if ch.chance(25) and all(len("%d %s" % l) <= 126 for l in tl1) else "file"
    r0, vm0 = rec(tl0, lines, "file")
    r1, vm1 = rec(tl1, new, mode)
    if len(r0["errors"]) != len(r1["errors"]): raise AssertionError("model: layouts differ")
    if mode == "file" and r0["out"] != r1["out"]: raise AssertionError("model: output of layouts differs")
    return dict(runs=[r0, r1], changes=changes, n=len(new), mode=mode, how=shape)

def lay(toks, ch, shape):
    """join() with a shape: dense as possible, wide, or random"""
    if shape == "any":
        t = join(toks, ch)
        if ch.chance(3) and len(t) < 90:
            # one long run of blanks after the first word of the line, or before it
            i = next((i for i, c in enumerate(t) if c == " "), None)
            q = t.find('"')
            if i is not None and not (0 <= q < i) and toks[0][0] not in "DR" and "DATA" not in t.upper() and "REM" not in t.upper()[:i] and "'" not in t[:i]:
                t = t[:i] + ch.pick([" ", "\t", " \t "]) * ch.int(10, 40) + t[i:]
        return t
    r = []
    for i, t in enumerate(toks):
        k, s = t
        if i:
            p = toks[i - 1]
            if k == "R": r.append(s and " "); r.append(s); continue
            if shape == "dense": r.append(" " if need_space(p, t) else "")
            else: r.append(ch.pick([" ", "   ", "\t", " \t ", "  "]))
        if k in "kn" and ch.chance(50): s = s.lower()
        r.append(s)
    return "".join(r)

def judge(case, sut):
    outs = []
    for i, run in enumerate(case["runs"]):
        r = perform(run, sut)
        from ..judge import compare
        why = compare(run, r)
        if why: return "%s layout: %s" % (("original", "changed")[i], why)
        outs.append(r)
    if case["mode"] == "file" and OVERFLOW.sub("", outs[0].out) != OVERFLOW.sub("", outs[1].out): return "the two layouts print different things: %r, %r" % (outs[0].out, outs[1].out)
    return None

def nontrivial(c): return len(c["changes"]) >= 3 and c["n"] >= 4
def classes(c): return sorted(c["changes"]) + [c["mode"], c["how"]]
