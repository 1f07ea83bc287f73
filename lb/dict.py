"""A fuzzing dictionary: the constants in the sources of the tree under test. Values at which the code itself makes a distinction
are more likely to matter than others, so generators draw some of their numbers, sizes, characters and words from it. It only
steers generation; nothing is concluded from it."""
import glob, os, re
from . import build as B

TOKEN = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)+\'|(?<![\w.])(?:0[xX][0-9a-fA-F]+|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)[uUlLfF]*(?![\w.])', re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "b": "\b", "a": "\a", "f": "\f", "v": "\v"}

def unescape(s):
    return re.sub(r"\\(x[0-9a-fA-F]+|[0-7]{1,3}|.)", lambda m: chr(int(m[1][1:], 16) & 255) if m[1][0] == "x" and len(m[1]) > 1 else chr(int(m[1], 8) & 255) if m[1][0] in "01234567" else ESC.get(m[1], m[1]), s)

def read():
    ints, floats, strs, chars = set(), set(), set(), set()
    for d in B.DIRS:
        for f in sorted(glob.glob(os.path.join(B.REPO, d, "*.[ch]"))):
            if os.path.basename(f).startswith("CuTest"): continue
            try:
                with open(f, encoding="latin-1") as fp: text = fp.read()
            except OSError: continue
            text = re.sub(r"(?ms)^#\s*ifdef\s+UNIT_TEST\b.*?^#\s*endif", "", text)
            text = re.sub(r"(?m)^\s*#\s*include.*$", "", text)
            for m in TOKEN.finditer(text):
                t = m[0]
                if t[0] == "/": continue
                if t[0] == '"':
                    s = unescape(t[1:-1])
                    if 0 < len(s) <= 12 and "%" not in s and "\n" not in s: strs.add(s)
                elif t[0] == "'":
                    c = unescape(t[1:-1])
                    if len(c) == 1: chars.add(c)
                else:
                    t = t.rstrip("uUlL") if t[:2].lower() == "0x" else t.rstrip("uUlLfF")
                    try:
                        x = float(int(t, 0)) if t[:2].lower() == "0x" else float(t)
                    except ValueError: continue
                    if x == int(x) and x < 2 ** 63: ints.add(int(x))
                    else: floats.add(x)
    return sorted(ints), sorted(floats), sorted(strs), sorted(chars)

INTS, FLOATS, STRS, CHARS = read()
# words that are not just names of keywords, operations and options; those that may stand in a string constant
WORDS = [s for s in STRS if not re.fullmatch(r"[A-Z0-9-]+[$]?|--.*", s) and not re.search(r'["\x00-\x08\x0a-\x1f\x7f-\xff]', s)] or ["x"]
PLAIN = [c for c in CHARS if " " <= c <= "~" and c != '"'] or ["x"]
# values next to a constant matter as much
NEAR = sorted({n + d for n in INTS for d in (-1, 0, 1) if n + d >= 0})
