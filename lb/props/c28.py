"""--list and --list-names of generated program files: whole programs, and lines of arbitrary tokens, with words in strings, REM and DATA.
The lines listed are the lines of the file; the names listed are those the generator put in as names (and, for keywords anywhere, those
that the reference lexer finds), each once, sorted, flagged."""
from .common import *
from ..judge import diff
from ..lang import KEYWORDS, BUILTIN, UNIMPLEMENTED
from ..parse import Lexer, Bad
from . import c15

VARIANTS = ["plain"]
CASES = dict(quick=40000, thorough=350000)
RULE = "at least two distinct names in code, and a name repeated in another case, or a word in a string, REM or DATA that is not a name"
FLAGS = {n: "*" for n in list(BUILTIN) + list(UNIMPLEMENTED)}
FLAGS["SPC"] = FLAGS["TAB"] = "="
BAN = "Legacy Basic 3.2.0 Copyright"
L, D = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789"

def case_of(ch, w):
    k = ch.upto(2)
    if k == 0: return w
    if k == 1: return w.lower()
    return "".join(c.lower() if ch.upto(1) else c for c in w)

def name(ch, pool):
    k = ch.upto(9)
    if k < 4 and pool: return ch.pick(pool)
    if k == 4: n = ch.pick(sorted(FLAGS))
    elif k == 5 and pool:
        n = ch.pick(pool)   # a near relative of another name
        n = ch.pick([n + "$", n[:-1] or "A", n.rstrip("$") + ch.pick(list(D + L)), n.rstrip("$") + "1$", ch.pick(list(L)) + n])
        if n.find("$") not in (-1, len(n) - 1): n = n.replace("$", "")
    elif k == 6: n = ch.pick(KEYWORDS) + ch.pick(["1", "X", "$", "0$", "ED"])
    elif k == 7: n = ch.pick(sorted(FLAGS)).rstrip("$") + ch.pick(["1", "X", "$", "2$"])
    else:
        n = ch.pick(list(L)) + "".join(ch.pick(list(L + D)) for _ in range(ch.size(0, 8)))
        if ch.chance(25): n += "$"
    if n in KEYWORDS: n += "Z"
    if len(n.rstrip("$")) > 60: n = n[:20].replace("$", "")
    pool.append(n)
    return n

def words(ch, pool, bad):
    w = [case_of(ch, ch.pick(pool)) if pool and ch.chance(50) else ch.pick(["HIDDEN", "Secret", "lurk$", "PRINT", "rem", "Q9", "let it", "DATA", "12", ""]) for _ in range(ch.size(1, 3))]
    return "".join(c for c in " ".join(w) if c not in bad)

def token_line(ch, pool, used, long):
    """A line of tokens, not necessarily a statement. Returns its text; names go in used."""
    t = ""; hidden = False
    first = True
    for _ in range(ch.size(1, 10) if not long else ch.size(5, 30)):
        k = ch.weighted([(8, "id"), (3, "kw"), (3, "num"), (3, "op"), (3, "str"), (1, "data")] )
        end = None
        w = None
        if k == "id": w = name(ch, pool); x = case_of(ch, w)
        elif k == "kw": x = case_of(ch, ch.pick([q for q in KEYWORDS if q not in ("REM", "DATA")]))
        elif k == "num": x = ch.pick(["1", "0", ".5", "1E5", "2.", "1e-3", "65000", "1.25E+7"])
        elif k == "op": x = ch.pick(["+", "-", "*", "/", "^", "(", ")", ",", ";", ":", "<", ">", "=", "<>", "<=", ">=", "?"])
        elif k == "str": x = '"' + words(ch, pool, '"') + '"'; hidden = True
        else:
            items = [ch.pick([words(ch, pool, '",:') or "z", '"' + words(ch, pool, '"') + '"']) for _ in range(ch.size(1, 3))]
            hidden = True
            x = case_of(ch, "DATA") + " " + ch.pick([",", ", ", " ,"]).join(items)
            end = ":"
            if len(x) > 110: continue
        if len(t) + len(x) > (230 if long else 110): break
        sep = ch.pick([" ", " ", "  ", "\t"])
        if t and not (x[0].isalnum() or x[0] in '.$') and t[-1] not in "<>" and ch.chance(60): sep = ""
        elif t and not (t[-1].isalnum() or t[-1] in ".$<>") and ch.chance(60): sep = ""
        elif not t: sep = ""
        t += sep + x
        if w: used.append(w)
        if end: t += ch.pick(["", " "]) + end
    if ch.chance(20):
        hidden = True
        r = case_of(ch, "REM") + ch.pick(["", " ", " "])
        x = words(ch, pool, "")
        if x and x[0].isalnum() and not r.endswith(" "): r += " "
        t += (" " if t and not t.endswith(":") else "") + r + x
    if t == "" or t[0].isdigit(): t = ": " + t
    return t, hidden

def lex_names(tl, crunch):
    s = []
    for _, t in tl:
        lx = Lexer(t, crunch)
        k = lx.next()
        while k[0] != "end" and k != ("kw", "REM"):
            if k == ("kw", "DATA"):
                while True:
                    lx.datum(); k = lx.next()
                    if k != ("op", ","): break
                continue
            if k[0] == "id": s.append(k[1])
            k = lx.next()
    return sorted(set(s))

def gen(ch):
    used = []; pool = []; hidden = False
    n = ch.size(1, 12)
    kind = ch.weighted([(3, "tokens"), (2, "program"), (1, "many"), (1, "body")])
    from ..gen import numbering
    if kind == "program":
        b = Builder(ch, items=ch.pick([3, 6]), risk=3, input=ch.chance(30)).build()
        tl = program_text(b.resolve()); used = None; hidden = True
    elif kind == "many":
        # many names in some order
        k = ch.pick([30, 80, 200])
        o = ch.upto(3)
        ns = ["%s%d" % (ch.pick(["A", "N", "Z"]), i) for i in range(k)] if o < 2 else [ch.pick(list(L)) + ch.pick(list(L)) + str(i % 7) + ("$" if i % 3 == 0 else "") for i in range(k)]
        if o == 1: ns.reverse()
        if o == 3: ns = ch.shuffle(ns)
        ns = [x if x not in KEYWORDS else x + "9" for x in ns]
        tl = []; num = 10
        while ns:
            c, ns = ns[:10], ns[10:]
            used += c
            tl.append((num, ch.pick(["PRINT ", "READ ", ""]) + ",".join(case_of(ch, x) for x in c))); num += ch.pick([1, 10, 97])
    elif kind == "body":
        tl = []; num = 0
        for _ in range(n):
            num += ch.pick([1, 5, 10, 100, 9999, 40000]); t = c15.body(ch)
            tl.append((num, t))
        used = None
    else:
        nums = numbering(ch, n)
        tl = []
        for x in nums:
            t, h = token_line(ch, pool, used, ch.chance(15))
            hidden = hidden or h
            tl.append((x, t))
    crunch = ch.chance(35)
    if crunch and kind == "tokens" and ch.chance(50):
        # without blanks, outside strings
        def squeeze(t):
            o = ""; q = False
            for c in t:
                if c == '"': q = not q
                if c == " " and not q and ch.chance(70): continue
                o += c
            return o
        tl = [(a, squeeze(t)) for a, t in tl]
    try: names = lex_names(tl, crunch)
    except Bad: names = None
    if kind in ("tokens", "many") and not crunch:
        want = sorted(set(used))
        if names != want: raise AssertionError("reference lexer: %r %r %r" % (names, want, tl))
    quiet = ch.chance(70)
    lo, no, ko, qo = (ch.pick(x) for x in (["-l", "--list"], ["-n", "--list-names"], ["-k", "--keywords-anywhere"], ["-q", "--quiet"]))
    def args(mode, k):
        a = [mode] + ([ko] if k else []) + ([qo] if quiet else [])
        a = ch.shuffle(a)
        a.insert(ch.upto(len(a)), "p.bas")
        return a
    text = file_text(tl)
    if any(len("%d %s" % l) > 254 for l in tl): raise Discard("long")
    if ch.chance(20): text = text[:-1]
    if not tl[-1][1].strip() or any("\n" in t for _, t in tl): raise Discard("empty last line")
    runs = [dict(files={"p.bas": text}, args=args(lo, ch.chance(20)))]
    if names is not None: runs.append(dict(files={"p.bas": text}, args=args(no, crunch)))
    return dict(runs=runs, tl=[list(l) for l in tl], names=names, quiet=quiet, kind=kind, crunch=crunch, hidden=hidden)

def strip_banner(out, quiet):
    if quiet: return out
    i = out.find("\n\n")
    if not out.startswith("Legacy Basic") or i < 0: return None
    return out[i + 2:]

def judge(case, sut):
    for i, run in enumerate(case["runs"]):
        r = perform(run, sut)
        if r.hung() or r.signal() or r.code(): return "%r: %s: %r" % (run["args"], r.describe(), r.err[-300:])
        out = strip_banner(r.out, case["quiet"])
        if out is None: return "no heading: %r" % r.out[:100]
        if r.err: return "%r: unexpected %r" % (run["args"], r.err[-300:])
        if i == 0:
            want = "".join("%5d %s\n" % tuple(l) for l in case["tl"])
            if out != want: return "--list: " + diff(want, out)
        else:
            ls = out.split("\n")
            if ls[-1] != "": return "--list-names: %r" % out[-80:]
            got = [(l[0], l[2:].upper()) for l in ls[:-1] if len(l) > 2]
            want = [(FLAGS.get(n, " "), n) for n in case["names"]]
            if len(got) != len(ls) - 1: return "--list-names: odd lines in %r" % out
            if got != want:
                return "--list-names: not listed %r, wrongly listed %r, or out of order: %r" % ([x for x in want if x not in got][:9], [x for x in got if x not in want][:9], got[:30])
    return None

def nontrivial(c): return len(c["names"] or ()) >= 2 and (c["hidden"] or c["kind"] == "many")
def classes(c): return [c["kind"], "crunch" if c["crunch"] else "normal", "names %d" % min(len(c["names"] or ()), 9), "quiet" if c["quiet"] else "heading"] + (["no names run"] if c["names"] is None else [])
