"""Comparing what the interpreter did with what was expected.
A run is a dict: files {name: text}, args, stdin, variant, and expectations: out, errors, code, saved."""
import re

EVENT = re.compile(r"^Runtime error: |^(?P<text>[^\n]*)\n *\^\nError: ", re.M)
OVERFLOW = re.compile(r"-- overflow: [^\n]*\n")

class Report(str):
    """The line after a message; lines: all lines after it (the message may quote a string with line feeds in it)."""

def events(err):
    """The error reports in standard error: ('run', line) or ('syntax', line)."""
    r = []
    ms = list(EVENT.finditer(err))
    for i, m in enumerate(ms):
        end = ms[i + 1].start() if i + 1 < len(ms) else len(err)
        if m.group("text") is not None: r.append(("syntax", m.group("text")))
        else:
            ls = err[m.end():end].split("\n")
            r.append(("run", Report(ls[1] if len(ls) > 1 else "")))
            r[-1][1].lines = ls[1:]
    return r

def line_of(e):
    """expected line report: [number, text] -> the text printed"""
    return None if e is None else "%d %s" % (e[0], e[1])

def diff(exp, act):
    i = 0
    while i < len(exp) and i < len(act) and exp[i] == act[i]: i += 1
    a = max(0, i - 60)
    return "at character %d: expected %r, got %r" % (i, exp[a:i + 60], act[a:i + 60])

def perform(run, sut):
    sut.clean()
    for n, t in run.get("files", {}).items(): sut.put(n, t)
    kw = {}
    for k in ("faketime", "cpu", "fsize", "failat", "persist", "merge", "sysret"):
        if k in run: kw[k] = run[k]
    return sut.run(run["args"], run.get("stdin", ""), variant=run.get("variant", "plain"),
                   breaks=[tuple(b) for b in run.get("breaks", ())], **kw)

def ended(r, run):
    """The interpreter ended by itself with the expected status."""
    if r.hung() or r.signal(): return "the interpreter %s" % r.describe()
    code = run.get("code", 0)
    if code is not None and r.code() != code:
        return "%s instead of %d; standard error: %r" % (r.describe(), code, r.err[-400:])
    return None

def compare(run, r):
    why = ended(r, run)
    if why: return why + "; " + (diff(run["out"], r.out) if "out" in run else "")
    if "out" in run:
        out = OVERFLOW.sub("", r.out) if run.get("errors") else r.out
        if out != run["out"]: return "standard output differs " + diff(run["out"], out) + "; standard error: %r" % r.err[-300:]
    if "errors" in run:
        want = run["errors"]
        got = events(r.err)
        if len(want) != len(got):
            return "expected %d error reports %r, got %d: %r" % (len(want), want, len(got), r.err[-600:])
        for (wk, wl), (gk, gl) in zip(want, got):
            if wk != gk: return "expected a %s error, got a %s error: %r" % (wk, gk, r.err[-600:])
            if wl is not None:
                t = line_of(wl) if wl[0] or wk == "run" else wl[1]
                if t != gl and t not in getattr(gl, "lines", ()): return "expected the error to be reported for line %r, but it was for %r: %r" % (t, gl, r.err[-600:])
        if run.get("complain"):
            if not r.err.strip(): return "nothing was reported on standard error"
        elif not want and r.err: return "unexpected text on standard error: %r" % r.err[-400:]
    return None

def judge_runs(case, sut):
    for i, run in enumerate(case["runs"]):
        r = perform(run, sut)
        why = compare(run, r)
        if why: return "run %d (%s): %s" % (i, " ".join(run["args"]), why)
        for n, t in run.get("saved", {}).items():
            got = sut.get(n)
            if got != t: return "run %d: file %s: expected %r, found %r" % (i, n, (t or "")[:300], (got or "")[:300])
    return None

def in_order(run, r, sut):
    """With both outputs going to one place, each report follows exactly what was printed before it. r: the same run with separate outputs."""
    if len(run.get("at", ())) != len(run["errors"]) or not run["at"] or "-- overflow" in r.out: return None
    starts = [m.start() for m in EVENT.finditer(r.err)]
    if len(starts) != len(run["at"]) or starts[0]: return None
    want = ""
    p = 0
    for i, q in enumerate(run["at"]):
        want += run["out"][p:q] + r.err[starts[i]:starts[i + 1] if i + 1 < len(starts) else len(r.err)]
        p = q
    want += run["out"][p:]
    m = perform(dict(run, merge=1), sut)
    if m.out != want: return "with standard output and error going to one place, the reports are out of order: " + diff(want, m.out)
    return None

def file_run(tlines, vm, stdin="", args=("-q",), **kw):
    """Run of a program file; expectations from the model."""
    from .lang import file_text
    d = dict(files={"p.bas": file_text(tlines)}, args=list(args) + ["p.bas"], stdin=stdin,
             out=vm.output(), errors=[["run", list(e) if e else None] for e in vm.errors], at=[vm.length()] * len(vm.errors), code=0)
    d.update(kw)
    return d
