"""Names: many variables, arrays and functions with colliding, long, case-varied names, all read back; RUN and CLEAR."""
from .common import *

VARIANTS = ["plain"]
CASES = dict(quick=9000, thorough=200000)
RULE = "at least 8 distinct names, all assigned before any is read back"
L = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
D = "0123456789"

def pool(ch, n):
    """n distinct base names, of one of several families"""
    k = ch.weighted([(4, 0), (4, 1), (3, 2), (2, 3)])
    r = set()
    tries = 0
    def ok(x): return ok_name(x) and ok_name(x + "$") and len(x) <= 110
    if k == 0: # short names
        c = [a + b for a in L for b in [""] + list(L + D)]
        c = [x for x in c if ok(x)]
        i = ch.upto(len(c) - 1); st = ch.pick([1, 7, 37])
        while len(r) < n and tries < 4000: r.add(c[(i + tries * st) % len(c)]); tries += 1
    elif k == 1: # names of equal hash modulo the symbol table's size, or equal hash altogether
        target = ch.upto(292)
        same = ch.chance(50)
        a = ch.upto(25); i = ch.upto(20000)
        while len(r) < n and tries < 60000:
            x = L[a] + L[(i // 676) % 26] + L[(i // 26) % 26] + L[i % 26] + (str(i % 97) if same else "")
            i += 1; tries += 1
            if hashpjw(x) % 293 == target and ok(x): r.add(x)
        # AB.. pairs with the same hash value: x1 y1 and x0 y(+16)
        for x in list(r)[:n // 3]:
            c = ord(x[-1])
            y = x[:-2] + chr(ord(x[-2]) + 1) + chr(c - 16)
            if all(q in L + D for q in y) and y[:1] in L and ok(y) and hashpjw(y) == hashpjw(x): r.add(y)
    elif k == 2: # long names, the same but for one character
        base = ch.pick(["LONGVARIABLENAME", "Q" * 40, "ZEBRAS" * 12, "A1B2C3D4" * 3, "Z" * 120])
        base = base[:ch.magic(2, 110) if ch.chance(30) else 110]
        while len(r) < n and tries < 4000:
            tries += 1
            p = ch.upto(len(base) - 1) if len(r) < 30 else tries % len(base)
            x = base[:p] + (L[tries % 26] if p == 0 or tries % 3 else D[tries % 10]) + base[p + 1:]
            if ok(x): r.add(x)
            if ok(base[:p + 1]): r.add(base[:p + 1])
    else: # numbered
        base = ch.pick(["V", "X", "ITEM", "QZ"])
        for i in range(n): r.add(base + str(i))
    r = sorted(x for x in r if ok(x))
    return r[:n]

def vary(ch, n):
    if ch is None: return n
    k = ch.upto(3)
    return n if k == 0 else n.lower() if k == 1 else n.capitalize() if k == 2 else n[:-1] + n[-1].lower()

def gen(ch):
    n = ch.weighted([(6, ch.int(2, 14)), (3, ch.int(15, 70)), (1, ch.int(70, 330))])
    bases = pool(ch, n)
    if len(bases) < 2: raise Discard("names")
    things = []  # (kind, name)
    for i, b in enumerate(bases):
        for kind in ("v", "v$", "a", "a$"):
            if len(bases) < 20 and ch.chance(55) or len(bases) >= 20 and (i + len(kind)) % 2: things.append([kind[0], b + kind[1:]])
        if not any(t[1].rstrip("$") == b for t in things): things.append(["v", b])
    # functions instead of some arrays
    for t in things:
        if t[0] == "a" and (ch.chance(50) if len(things) < 40 else hashpjw(t[1]) % 5 < 2): t.append(2)
        elif t[0] == "a" and (ch.chance(30) if len(things) < 40 else hashpjw(t[1]) % 3 == 0): t[0] = "d"
    order = ch.shuffle(range(len(things))) if len(things) < 60 else list(range(len(things)))
    lines = []
    def emit(*ss): lines.append((0, list(ss)))
    def val(i, name): return ("str", "t%d" % i) if is_str(name) else num(i + 1)
    def get(t): return var(t[1]) if t[0] == "v" else idx(t[1], num(1), num(t[2])) if len(t) > 2 else idx(t[1], num(1 if t[0] == "a" else 5))
    def show(which=None):
        cur = []
        for i in which if which is not None else range(len(things)):
            if cur and len(text_of([("print", cur, False)])) + len(things[i][1]) > 200: emit(("print", cur, False)); cur = []
            cur = cur + [("e", get(things[i])), (";",)]
        if cur: emit(("print", cur, False))
    early = ch.chance(40)
    if early: show([i for i in range(len(things)) if things[i][0] != "d"]) # unassigned: zero, empty
    for j in order:
        kind, name = things[j][:2]
        if kind == "v": emit(("let", var(name), val(j, name), False))
        elif kind == "a": emit(("let", get(things[j]), val(j, name), False))
        else: emit(("def", name, "PQ9", op("+", val(j, name), fn("STR$", var("PQ9")) if is_str(name) else op("*", num(1000), var("PQ9")))))
    show()
    tail = ch.weighted([(6, None), (6, "clear"), (4, "reassign"), (2, "loop")])
    if tail == "loop":
        # CLEAR within a loop: the loop goes on, and its variable is seen to
        vs = [t for t in things if t[0] == "v" and not is_str(t[1])]
        if vs:
            v = ch.pick(vs)[1]
            emit(("for", v, num(ch.int(1, 3)), num(ch.int(2, 6)), None if ch.chance(50) else num(ch.int(1, 2))))
            emit(("print", [("e", var(v)), (";",)], False))
            emit(("let", var("PQ8"), op("+", var("PQ8"), num(1)), False))
            emit(("if", op("=", var(v), num(ch.int(1, 5))), ("stmts", [("clear",), ("let", var("PQ7"), op("+", var(v) if ch.chance(50) else num(3), num(1)), False)]), None) if ch.chance(60) else ("if", op("=", var("PQ7"), num(0)), ("stmts", [("clear",), ("let", var("PQ7"), num(1), False)]), None))
            if ch.chance(50): emit(("print", [("e", var(v)), (";",), ("e", var("PQ8")), (";",), ("e", var("PQ7"))], False))
            emit(("next", ()))
            emit(("print", [("e", var(v))], False))
    if tail == "reassign":
        for _ in range(ch.int(1, 6)):
            j = ch.upto(len(things) - 1)
            kind, name = things[j][:2]
            if kind == "d": continue
            emit(("let", get(things[j]), val(j + 5000, name), False))
        show()
    if tail == "clear":
        emit(("clear",))
        show([i for i in range(len(things)) if things[i][0] != "d"])
        ds = [t for t in things if t[0] == "d"]
        if ds: emit(("print", [("e", get(ch.pick(ds)))], False)) # error: not defined
    nums = numbering(ch, len(lines))
    lines = [(q, ss) for q, (_, ss) in zip(nums, lines)]
    run = None
    vmode = ch.chance(60)
    style = None
    texts = []
    for q, ss in lines:
        toks = ltok(ss)
        if vmode: toks = [(k, vary(ch if len(things) < 60 else None, s) if k == "n" and s not in BUILTIN else s) for k, s in toks]
        texts.append((q, join(toks)))
    if any(len("%d %s" % t) > 250 for t in texts): raise Discard("line")
    if ch.chance(70) or len(lines) > 60 or any(len("%d %s" % t) > 126 for t in texts):
        vm = Vm(max_steps=20000)
        vm.load(texts, lines)
        vm.run_program()
        run = file_run(texts, vm)
    else:
        s = Session()
        for q, t in texts: s.line(q, t)
        s.run()
        if ch.chance(50): s.stmts([("clear",)])
        if ch.chance(50):
            j = ch.upto(len(things) - 1)
            if things[j][0] == "v": s.stmts([("let", var(things[j][1]), val(9000, things[j][1]), False)])
        s.run()
        t = [x for x in things if x[0] != "d"][:6]
        if t: s.stmts([("print", [x for y in t for x in (("e", get(y)), (";",))], False)])
        run = s.finish()
    return dict(runs=[run], names=len(things), kinds=sorted(set(t[0] for t in things)))

def fixed_cases():
    # more names than 16 bits can number
    n = 66000
    names = ["Q%s%s%s%s" % (L[i // 17576 % 26], L[i // 676 % 26], L[i // 26 % 26], L[i % 26]) + str(i % 7) for i in range(n)]
    tl = []
    for i in range(0, n, 18): tl.append((len(tl) + 1, ":".join("%s=%d" % (x, i + j) for j, x in enumerate(names[i:i + 18]))))
    some = [0, 1, 255, 463, 464, 465, 32767, 32768, 65000, 65534, 65535, 65536, 65537, 65999]
    out = ""
    for i in some: tl.append((len(tl) + 1, "PRINT %s" % names[i])); out += " %d \n" % i
    return [("names-66000", dict(runs=[dict(files={"p.bas": file_text(tl)}, args=["-q", "p.bas"], stdin="", out=out, errors=[], code=0)]))]

def nontrivial(c): return c["names"] >= 8
def classes(c): return ["names %s" % ("<16" if c["names"] < 16 else "<64" if c["names"] < 64 else "<293" if c["names"] < 293 else "293+")] + ["with " + k for k in c["kinds"]]
