"""Command lines: options in either form, any order, repeated, before and after the file name; several modes; refused command lines;
missing and malformed files. The same command line in canonical form, and what each mode promises, are the oracle."""
import re
from .common import *
from ..judge import compare, diff, OVERFLOW
from ..parse import parse_program

VARIANTS = ["plain"]
CASES = dict(quick=26000, thorough=300000)
RULE = "at least two options, or a command line that must be refused, with a file that holds a program"
LONG = {"-c": "--code", "-k": "--keywords-anywhere", "-l": "--list", "-n": "--list-names", "-p": "--parse", "-q": "--quiet", "-z": "--randomize",
        "-m": "--report-memory", "-r": "--run", "-t": "--trace-basic", "-f": "--trace-for", "-g": "--trace-log"}
HELP = ["--help", "-h", "--help-full", "-hh", "--version", "-v"]
MODES = ["-c", "-l", "-n", "-p", "-r"]
OTHERS = ["-k", "-q", "-z", "-m", "-t", "-f", "-g"]
UNKNOWN = ["-x", "--quite", "-Q", "--lis", "-", "-qq", "--run=1", "-kq", "--", "-1", "--Quiet", "--trace", "-w", "-L", "--list-name", "--helpful", "-T", "-R"]
BANNER = re.compile(r"\ALegacy Basic [^\n]*\n\n")
MEM = re.compile(r"\nmalloc: +(\d+)\nfree: +(\d+)\n\Z")

def like(ch):
    """no option, but nearly one"""
    o = ch.pick(list(LONG.values()) + list(LONG) + HELP)
    i = ch.int(1, len(o) - 1)
    k = ch.upto(5)
    if k == 0: o = o[:i]
    elif k == 1: o = o + ch.pick("sx=1-e")
    elif k == 2: o = o[:i] + ch.pick("abxz-") + o[i + 1:]
    elif k == 3: o = o[:i] + o[i + 1:]
    elif k == 4: o = o[:i] + o[i:].upper()
    else: o = o[:i] + ch.pick("aex") + o[i:]
    if o in LONG or o in LONG.values() or o in HELP or o[:1] != "-" or o in ("-?", "--unit-tests", "-unittest", "--time", "-i"): o = "-" + o[1:] + "x"
    return o if o not in LONG and o not in HELP else "--none"

def gen(ch):
    kind = ch.weighted([(6, "valid"), (2, "syntax"), (1, "missing"), (1, "unnumbered"), (1, "decreasing"), (1, "empty"), (1, "directory"), (2, "none")])
    b = Builder(ch, items=ch.pick([1, 3]), risk=2, rnd=ch.chance(30), input=ch.chance(15), ctx=10).build()
    lines = b.resolve()
    reps = [reply(ch) for _ in range(3)]
    it = iter(list(reps))
    vm = Vm(reader=lambda: next(it) + "\n")
    vm.rnd = lambda: 0.5
    tl = program_text(lines)
    vm.load(tl, lines)
    try: vm.run_program()
    except StopIteration: raise Discard("input")
    if kind == "syntax":
        i = ch.upto(len(tl) - 1)
        tl = list(tl); tl[i] = (tl[i][0], ch.pick(["PRINT )", "FOR", "X=", "GOTO X", 'A$=1', "NEXT 5", "IF X", "PRINT 1 2 3)"]))
    text = file_text(tl)
    if kind == "unnumbered": text = ch.pick(["PRINT 1\n" + text, text + "PRINT 1\n"])
    if kind == "decreasing": text = text + text
    if kind == "empty": text = ""
    files = {} if kind in ("missing", "directory", "none") else {"p.bas": text}
    name = {"directory": "."}.get(kind, "p.bas")
    modes = [ch.pick(MODES)] if ch.chance(60) else []
    if modes and ch.chance(25): modes += [ch.pick(MODES)] * ch.int(1, 2)
    if len(modes) > 1 and ch.chance(70): modes = [ch.pick(MODES) for _ in modes]
    opts = [o for o in OTHERS if ch.chance(35)]
    again = [o for o in opts if ch.chance(15)]
    if ch.chance(70) and "-q" not in opts: opts.append("-q")
    # canonical: the last mode, each option once, short, file last
    canon = sorted(opts) + modes[-1:]
    a = ch.shuffle(opts + again)
    for m in modes: a.insert(ch.upto(len(a)), None)
    ms = iter(modes)
    a = [next(ms) if x is None else x for x in a]
    a = [LONG[o] if ch.chance(50) else o for o in a]
    refused = None
    k = ch.weighted([(10, ""), (2, "unknown"), (2, "second"), (2, "help")])
    if kind == "none": # no file: interactive mode
        pass
    else:
        canon = canon + [name]
        a.insert(ch.upto(len(a)), name)
    if k == "unknown": refused = "unknown"; a.insert(ch.upto(len(a)), ch.pick(UNKNOWN) if ch.chance(40) else like(ch))
    elif k == "second" and kind != "none": refused = "second"; a.insert(ch.upto(len(a)), ch.pick(["p.bas", "q.bas", "x", "10", "."]))
    elif k == "help": refused = "help"; a.insert(ch.upto(len(a)), ch.pick(HELP))
    elif kind == "none" and modes: refused = "mode"
    stdin = "".join(r + "\n" for r in reps) if kind != "none" else 'PRINT "@";"@"\n'
    return dict(kind=kind, files=files, args=a, canon=canon, mode=modes[-1] if modes else "-r", refused=refused, stdin=stdin, opts=opts, tl=[list(l) for l in tl], text=text,
                out=vm.output(), errors=[["run", list(e) if e else None] for e in vm.errors])

def judge(case, sut):
    c = case
    r = perform(dict(files=c["files"], args=c["args"], stdin=c["stdin"]), sut)
    what = "%r with a %s file: " % (c["args"], c["kind"])
    if r.hung() or r.signal(): return what + r.describe()
    opts, mode = c["opts"], c["mode"]
    quiet = "-q" in opts
    if c["refused"]:
        if c["refused"] == "help":
            out = r.out
            last = [x for x in c["args"] if x in HELP]
            if last[-1] in ("--help", "-h", "--help-full", "-hh"):
                for s, l in LONG.items():
                    if s not in out or l not in out: return what + "%s, %s is not mentioned: %r" % (s, l, out[:200])
                if r.err: return what + "unexpected %r" % r.err[:200]
            elif not re.fullmatch(r"Legacy Basic [^\n]*\n\n?", out): return what + "printed %r" % out[:200]
            return None
        if r.code() == 0: return what + "was accepted, exit status 0: %r" % r.out[-100:]
        if not r.err.strip(): return what + "nothing was reported"
        out = BANNER.sub("", r.out) if c["refused"] == "mode" else r.out
        if out: return what + "printed %r" % out[:200]
        return None
    q = perform(dict(files=c["files"], args=c["canon"], stdin=c["stdin"]), sut)
    if (q.out, q.err, q.status) != (r.out, r.err, r.status):
        return what + "differs from %r: %s; %s; %s, %s" % (c["canon"], diff(q.out, r.out), diff(q.err, r.err), q.describe(), r.describe())
    out = r.out
    if not quiet:
        m = BANNER.match(out)
        if not m: return what + "no version information: %r" % out[:100]
        out = out[m.end():]
    elif BANNER.match(out): return what + "version information: %r" % out[:100]
    if c["kind"] == "none":
        if r.code(): return what + r.describe()
        if "@@" not in out: return what + "no interactive session: %r" % out
        return None
    bad = c["kind"] in ("missing", "unnumbered", "decreasing", "directory")
    if bad:
        if r.code() == 0: return what + "exit status 0"
        if not r.err.strip(): return what + "nothing was reported"
        if out: return what + "printed %r" % out[:200]
        return None
    valid = parse_program([tuple(l) for l in c["tl"]], {}, "-k" in opts)[0] is not None if c["kind"] != "empty" else True
    if mode in ("-p", "-c") and not valid:
        if r.code() == 0: return what + "exit status 0"
        if "Error: " not in r.err: return what + "no syntax error was reported: %r" % r.err[:200]
        if mode == "-p" and out: return what + "printed %r" % out[:200]
        return None
    if r.code() and not (mode == "-r" and not valid): return what + r.describe() + ": %r" % r.err[-200:]
    if "-m" in opts:
        m = MEM.search(out)
        if not m: return what + "no memory report: %r" % out[-200:]
        out = out[:m.start()]
    elif MEM.search(out): return what + "unexpected memory report"
    if mode == "-p":
        if out: return what + "printed %r" % out[:200]
        if r.err: return what + "reported %r" % r.err[:200]
    elif mode == "-c":
        if c["kind"] == "valid" and len(out.split("\n")) <= len(c["tl"]): return what + "no code was listed: %r" % out[:200]
    elif mode == "-l":
        want = "".join("%5d %s\n" % tuple(l) for l in c["tl"]) if c["kind"] != "empty" else ""
        if out != want: return what + diff(want, out)
    elif mode == "-n":
        if not re.fullmatch(r"([ *=] [A-Za-z][^\n]*\n)*", out): return what + "printed %r" % out[:200]
    elif c["kind"] == "valid" and not {"-t", "-f", "-g", "-k"} & set(opts):
        if c["errors"]: out = OVERFLOW.sub("", out)
        if out != c["out"]: return what + diff(c["out"], out)
        if ("Runtime error: " in r.err) != bool(c["errors"]): return what + "reported %r" % r.err[:200]
    elif c["kind"] == "syntax" and not valid:
        if out: return what + "an invalid program printed %r" % out[:200]
        if "Error: " not in r.err: return what + "no syntax error was reported: %r" % r.err[:200]
    return None

def nontrivial(c): return (len(c["opts"]) >= 2 or c["refused"]) and c["kind"] in ("valid", "syntax")
def classes(c): return [c["kind"], c["mode"], "refused: %s" % c["refused"] if c["refused"] else "accepted", "%d options" % len(c["opts"])]
