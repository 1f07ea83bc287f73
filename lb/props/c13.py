"""Fuzzing of program files: structured, mutated and raw bytes, under AddressSanitizer and UBSan, coverage guided."""
import re
from .common import *
from ..fuzz import *

VARIANTS = ["san"]
CASES = dict(quick=25000, thorough=400000)
GUIDED = True
RULE = "the file loads and has at least one line that is not a valid line, or a line that fails or presses a limit when run (by the generator's own mutation count), so that it is not merely an ordinary program"
# the first may be lost while a large program is compiled
BREAKS = [[s, g] for s in range(1, 80) for g in (20000, 300000, 5000000)]
MODES = [["-q", "-r"][:1], ["-q", "-k"], ["--parse"], ["--list"], ["--list-names"], ["-q", "-t"], ["-q", "-f"], ["-q", "-m"], ["--list-names", "-k"], ["--parse", "-k"], ["--code"], ["--code", "-k"]]
ASSUMPTIONS = ["a program that loops for ever is interrupted by a break (SIGINT) after 20000 function entries of the interpreter; it must then stop"]

def gen(ch):
    kind = ch.weighted([(4, "prog"), (4, "soup"), (3, "stress"), (2, "raw")])
    muts = 0
    if kind == "prog":
        lines, b = program(ch, input=True, rnd=True, stop=True, cls=True, risk=12, items=4)
        tl = program_text(lines, ch if ch.chance(30) else None)
    else:
        # the first error ends a program: few lines, so that each is reached
        alone = kind == "stress" and ch.chance(60)
        n = ch.size(1, 10) if not alone else ch.int(1, 2)
        tl = []
        for q in range(n):
            if kind == "stress" and (alone or ch.chance(70)): t = stress(ch); muts += 1
            else: t = soup(ch); muts += 1
            tl.append((10 * (q + 1), t))
    if ch.chance(12 if kind == "stress" and alone else 70):
        for _ in range(ch.size(1, 4)):
            i = ch.upto(len(tl) - 1)
            n, t = tl[i]
            tl[i] = (n, mutate_tokens(ch, t, 3) if ch.chance(75) else mutate_bytes(ch, t))
            muts += 1
    if ch.chance(10): tl[ch.upto(len(tl) - 1)] = (ch.pick([0, 65535, 65536, 4294967295, 4294967296, 10]), "PRINT 1"); muts += 1
    text = "".join("%d %s\n" % l for l in tl)
    if kind == "raw": text = mutate_bytes(ch, text, 12); muts += 1
    elif ch.chance(12): text = mutate_bytes(ch, text, 2); muts += 1
    if ch.chance(5): text = text.rstrip("\n")
    if ch.chance(6): text = "1 PRINT %s\n" % "".join(ch.pick(["TAB(%d);", "SPC(%d);"]) % ch.pick([0, 0, 1, 2, 10, 255, 256, 300]) if ch.chance(60) else ch.pick(['"x";', "1,", '"ab",', ""]) for _ in range(ch.int(1, 5))) + text
    args = ch.pick(MODES) if ch.chance(60) else ["-q"]
    stdin = "".join(reply(ch) + "\n" for _ in range(ch.size(0, 5)))
    if ch.chance(10): stdin = mutate_bytes(ch, stdin, 4)
    return dict(files={"p.bas": text[:60000]}, args=args + ["p.bas"], stdin=stdin, kind=kind, muts=muts)

def judge(case, sut):
    run = dict(case, variant="san", breaks=BREAKS)
    r = perform(run, sut)
    if r.signal() == 25 and modest(case["files"]["p.bas"]):
        return "the interpreter wrote without end, though no TAB or SPC asks for much, and despite a break: %r" % r.out[:200]
    why = verdict(r)
    if not why and "\xbe" in r.err and not any("\xbe" in x for x in (case["files"]["p.bas"], case["stdin"])) and "CHR" not in case["files"]["p.bas"].upper():
        # the sanitizer fills memory that is allocated with this byte
        return "uninitialised memory was written to standard error: %r" % r.err[-600:]
    return why

def modest(text):
    """no TAB or SPC but with small numbers: what is printed until the first break is then limited"""
    return len(re.findall(r"TAB|SPC", text, re.I)) == len(re.findall(r"(?:TAB|SPC) *\( *\d{1,3} *\)", text, re.I))

def verdict(r):
    if r.signal() == 25: return None      # SIGXFSZ: endless output, ended by the harness
    if r.hung(): return "the interpreter %s, even after a break" % r.describe()
    if r.signal(): return "the interpreter was %s: %s" % (r.describe(), r.err[-300:])
    if r.code() == 99 or "AddressSanitizer" in r.err or "runtime error:" in r.err and ".c:" in r.err:
        return "memory error or undefined behaviour: %r" % r.err[-2500:]
    if r.code() not in (0, 1): return "the interpreter ended with %s: %r" % (r.describe(), r.err[-400:])
    if "internal error" in r.err or "B-code index out of range" in r.err: return "the interpreter found itself in error: %r" % r.err[-400:]
    if r.code() == 1 and not r.err.strip() and not r.out.strip(): return "exit status 1 with no error reported"
    return None

def nontrivial(c): return c["muts"] > 0
def classes(c): return [c["kind"], " ".join(c["args"][:-1])]
