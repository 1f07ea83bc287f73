"""Whole programs in the manner of the 1970s: small games and algorithms with generated parameters. Each function of GAMES draws its parameters
from ch and returns (lines of BASIC, replies typed, words printed). In the lines, "@x" names a line: at the start of a line
it is its label, elsewhere a reference. The words are computed in Python, without the reference interpreter, and are what the output
consists of but for blanks."""
import math

def nums(xs): return [("%g" % x) for x in xs]
def data(xs, per=8):
    xs = [str(x) for x in xs]
    return ["DATA " + ",".join(xs[i:i + per]) for i in range(0, len(xs), per)]

WORDS = "apple bat cat dog egg fish goat hat ink jug kite lamp moon nest owl pig quilt rat sun tree urn vase web yak zebra Ant Bee 7up a1 x the quick brown fox".split()

def value(ch):
    k = ch.upto(9)
    if k < 6: return ch.int(0, 99)
    if k == 6: return -ch.int(0, 99)
    if k == 7: return ch.int(0, 99999)
    return ch.int(-400, 400) / 4

def sort_numbers(ch):
    xs = [value(ch) for _ in range(ch.int(1, 24))]
    n = len(xs)
    if ch.chance(50):
        body = ["@s F=0", "FOR I=1 TO %d" % (n - 1) if n > 1 else "IF 1 THEN @e", "IF A(I)>A(I+1) THEN T=A(I):A(I)=A(I+1):A(I+1)=T:F=1", "NEXT I", "IF F THEN @s", "@e REM sorted"]
        if n == 1: body = ["REM one"]
    else:
        body = ["@s G=INT(%d/2)" % n, "@g IF G=0 THEN @e", "FOR I=G+1 TO %d" % n, "T=A(I):J=I", "@w IF J<=G THEN @p", "IF A(J-G)<=T THEN @p", "A(J)=A(J-G):J=J-G:GOTO @w", "@p A(J)=T", "NEXT", "G=INT(G/2):GOTO @g", "@e REM"]
        if n == 1: body = ["REM one"]
    return (["DIM A(%d)" % (n + 1), "RESTORE @d", "FOR I=1 TO %d:READ A(I):NEXT I" % n] + body + ["FOR I=1 TO %d:PRINT A(I);:NEXT:PRINT" % n, "GOTO @z", "@d REM the numbers"] + data(xs) + ["@z PRINT"], [], nums(sorted(xs)))

def sort_words(ch):
    ws = [ch.pick(WORDS) for _ in range(ch.int(2, 14))]
    n = len(ws)
    return (["DIM W$(%d)" % n, "RESTORE @d", "FOR I=0 TO %d:READ W$(I):NEXT" % (n - 1),
             "FOR I=0 TO %d" % (n - 2), "M=I", "FOR J=I+1 TO %d" % (n - 1), "IF W$(J)<W$(M) THEN M=J", "NEXT J", "T$=W$(I):W$(I)=W$(M):W$(M)=T$", "NEXT I",
             "FOR I=0 TO %d:PRINT W$(I);\" \";:NEXT:PRINT" % (n - 1), "GOTO @z", "@d REM"] + data(['"%s"' % w if ch.chance(40) else w for w in ws], 5) + ["@z REM"], [], sorted(ws))

def sieve(ch):
    m = ch.int(3, 120)
    ps = [p for p in range(2, m + 1) if all(p % q for q in range(2, int(p ** .5) + 1))]
    return (["M=%d" % m, "DIM S(M)", "FOR N=2 TO INT(SQR(M))", "IF S(N) THEN @n", "I=N+N", "@i IF I<=M THEN S(I)=1:I=I+N:GOTO @i", "@n NEXT N", "FOR I=2 TO M", "IF S(I)=0 THEN PRINT I;", "NEXT I:PRINT"], [], nums(ps))

def gcd(ch):
    ps = [(ch.int(1, 9999), ch.int(1, 9999)) for _ in range(ch.int(1, 4))]
    if ch.chance(50):
        lines = ["RESTORE @d", "FOR K=1 TO %d" % len(ps), "READ A,B", "GOSUB @g", "PRINT G;", "NEXT K", "PRINT:GOTO @z", "@g IF B=0 THEN G=A:RETURN", "T=A-B*INT(A/B):A=B:B=T", "GOTO @g", "@d REM"] + data([x for p in ps for x in p], 4) + ["@z REM"]
        return lines, [], nums(math.gcd(*p) for p in ps)
    lines = ["FOR K=1 TO %d" % len(ps), "INPUT \"numbers\";A,B", "@g IF A<>B THEN IF A>B THEN A=A-B:GOTO @g ELSE B=B-A:GOTO @g", "PRINT:PRINT A", "NEXT"]
    ps = [(min(a, 300), min(b, 300)) for a, b in ps]
    lines[2] = "@g IF A>B THEN A=A-B:GOTO @g"
    lines.insert(3, "IF B>A THEN B=B-A:GOTO @g")
    out = []
    for p in ps: out += ["numbers?", "%d" % math.gcd(*p)]
    return lines, ["%d,%d" % p if ch.chance(70) else " %d , %d" % p for p in ps], out

def factors(ch):
    n = ch.int(2, 30000)
    fs, x, d = [], n, 2
    while x > 1:
        while x % d == 0: fs.append(d); x //= d
        d += 1
        if d * d > x and x > 1: fs.append(x); break
    return (["N=%d:D=2" % n, "@a IF N=1 THEN @z", "IF D*D>N THEN PRINT N:GOTO @z", "@b IF N/D=INT(N/D) THEN PRINT D;:N=N/D:GOTO @b", "D=D+1:GOTO @a", "@z PRINT"], [], nums(fs))

def base(ch):
    n = ch.int(0, 99999); b = ch.int(2, 16)
    s, x = "", n
    while x: s = "0123456789ABCDEF"[x % b] + s; x //= b
    return (["N=%d:B=%d:S$=\"\"" % (n, b), "@a IF N=0 THEN @b", "D=N-B*INT(N/B)", "S$=MID$(\"0123456789ABCDEF\",D+1,1)+S$", "N=INT(N/B)", "GOTO @a", "@b IF S$=\"\" THEN S$=\"0\"", "PRINT S$",
             "V=0", "FOR I=1 TO LEN(S$)", "C=ASC(MID$(S$,I,1))-48", "IF C>9 THEN C=C-7", "V=V*B+C", "NEXT I", "PRINT V"], [], [s or "0", "%g" % n])

def roman(ch):
    ns = [ch.int(1, 3999) for _ in range(ch.int(1, 4))]
    t = [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")]
    out = []
    for n in ns:
        r = ""
        for v, s in t:
            while n >= v: r += s; n -= v
        out += ["%d" % ns[len(out) // 2], r]
    return (["FOR K=1 TO %d" % len(ns), "RESTORE @n:FOR I=1 TO K:READ N:NEXT I", "PRINT N;", "RESTORE @r", "R$=\"\"", "FOR I=1 TO 13", "READ V,S$", "@w IF N>=V THEN R$=R$+S$:N=N-V:GOTO @w", "NEXT I", "PRINT R$", "NEXT K", "GOTO @z",
             "@n DATA " + ",".join(map(str, ns)), "@r DATA 1000,M,900,CM,500,D,400,CD,100,C,90,XC,50,L", "DATA 40,XL,10,X,9,IX,5,V,4,IV,1,I", "@z REM"], [], out)

def caesar(ch):
    s = "".join(ch.pick("ABCDEFGHIJKLMNOPQRSTUVWXYZ") if ch.chance(85) else ch.pick(".-+") for _ in range(ch.int(1, 30)))
    k = ch.int(-30, 60)
    e = "".join(chr((ord(c) - 65 + k) % 26 + 65) if c.isalpha() else c for c in s)
    return (["DEF MD(X)=X-26*INT(X/26)", "INPUT \"text\";T$:PRINT", "K=%d:U$=T$:GOSUB @e:PRINT V$" % k, "K=-K:U$=V$:GOSUB @e:PRINT V$", "IF V$=T$ THEN PRINT \"same\" ELSE PRINT \"not the same\"", "GOTO @z",
             "@e V$=\"\"", "FOR I=1 TO LEN(U$)", "C$=MID$(U$,I,1)", "IF C$<\"A\" OR C$>\"Z\" THEN @v", "C$=CHR$(MD(ASC(C$)-65+K)+65)", "@v V$=V$+C$", "NEXT I", "RETURN", "@z REM"], [s], ["text?", e, s, "same"])

def palindrome(ch):
    w = "".join(ch.pick("abc") for _ in range(ch.int(1, 40)))
    if ch.chance(50): w = w + w[::-1][ch.int(0, 1):]
    return (["W$=\"%s\"" % w, "R$=\"\"", "FOR I=LEN(W$) TO 1 STEP -1:R$=R$+MID$(W$,I,1):NEXT", "PRINT R$", "IF R$=W$ THEN PRINT \"palindrome\" ELSE PRINT \"no\"",
             "L=1:R=LEN(W$)", "@a IF L<R AND MID$(W$,L,1)=MID$(W$,R,1) THEN L=L+1:R=R-1:GOTO @a", "PRINT L>=R"], [], [w[::-1], "palindrome" if w == w[::-1] else "no", "-1" if w == w[::-1] else "0"])

def fibonacci(ch):
    n = ch.int(2, 40)
    a, b, r = 0, 1, []
    for _ in range(n): r.append(b); a, b = b, a + b
    return (["A=0:B=1", "FOR I=1 TO %d" % n, "PRINT B,", "C=A+B:A=B:B=C", "NEXT I", "PRINT"], [], nums(r))

def matrix(ch):
    n, m, p = ch.int(1, 5), ch.int(1, 5), ch.int(1, 5)
    A = [[ch.int(-9, 9) for _ in range(m)] for _ in range(n)]
    B = [[ch.int(-9, 9) for _ in range(p)] for _ in range(m)]
    C = [[sum(A[i][k] * B[k][j] for k in range(m)) for j in range(p)] for i in range(n)]
    return (["DIM A(%d,%d),B(%d,%d),C(%d,%d)" % (n, m, m, p, n, p), "RESTORE @d",
             "FOR I=1 TO %d:FOR J=1 TO %d:READ A(I,J):NEXT J,I" % (n, m), "FOR I=1 TO %d:FOR J=1 TO %d:READ B(I,J):NEXT:NEXT" % (m, p),
             "FOR I=1 TO %d" % n, "FOR J=1 TO %d" % p, "S=0", "FOR K=1 TO %d:S=S+A(I,K)*B(K,J):NEXT K" % m, "C(I,J)=S", "NEXT J", "NEXT I",
             "FOR I=1 TO %d" % n, "FOR J=1 TO %d:PRINT TAB(J*6-5);C(I,J);:NEXT" % p, "PRINT", "NEXT", "GOTO @z", "@d REM"] + data([x for r in A + B for x in r]) + ["@z REM"], [], nums(x for r in C for x in r))

def hilo(ch):
    n = ch.int(1, 100)
    g, out = [], ["Guess", "my", "number"]
    lo, hi, t = 1, 100, 0
    while True:
        x = (lo + hi) // 2 if ch.chance(60) else ch.int(lo, hi)
        bad = ch.chance(15)
        if bad: g.append(ch.pick(["what", "x", "", "--1", "1 2"])); out += (["your", "guess?"] + (["*", "Invalid", "input", "*"]))
        g.append(ch.pick(["%d", "%d", " %d ", "%d.0", "+%d"]) % x); t += 1
        out += ["your", "guess?"]
        if x == n: out += ["You", "got", "it", "in", "%d" % t, "guesses!"]; break
        if x < n: out += ["too", "low"]; lo = x + 1
        else: out += ["too", "high"]; hi = x - 1
    return (["PRINT \"Guess my number\"", "T=0", "@g INPUT \"your guess\";G:PRINT", "T=T+1", "IF G=%d THEN PRINT \"You got it in\";T;\"guesses!\":GOTO @z" % n, "PRINT \"too \";", "IF G<%d THEN PRINT \"low\" ELSE PRINT \"high\"" % n, "GOTO @g", "@z PRINT"], g, out)

def hanoi(ch):
    n = ch.int(1, 5)
    out = []
    def h(n, a, b, c):
        if n: h(n - 1, a, c, b); out.extend(["%d" % n, "%s->%s" % ("ABC"[a], "ABC"[b])]); h(n - 1, c, b, a)
    h(n, 0, 1, 2)
    # an explicit stack: size, from, to, by, stage
    return (["DIM S(60,4),P$(2)", "P$(0)=\"A\":P$(1)=\"B\":P$(2)=\"C\"", "P=0:N=%d:A=0:B=1:C=2" % n, "GOSUB @push", "@l IF P=0 THEN @z", "GOSUB @pop", "IF N=0 THEN @l",
             "IF D=1 THEN PRINT N;P$(A);\"->\";P$(B):GOTO @l",
             "X=N:Y=A:Z=B:W=C", "N=X-1:A=W:B=Z:C=Y:GOSUB @push", "D=1:N=X:A=Y:B=Z:C=W:GOSUB @pu2", "N=X-1:A=Y:B=W:C=Z:GOSUB @push", "GOTO @l",
             "@push D=0", "@pu2 S(P,0)=N:S(P,1)=A:S(P,2)=B:S(P,3)=C:S(P,4)=D:P=P+1:RETURN",
             "@pop P=P-1:N=S(P,0):A=S(P,1):B=S(P,2):C=S(P,3):D=S(P,4):RETURN", "@z REM"], [], out)

def matches(ch):
    n = ch.int(5, 30)
    rep, out, left = [], [], n
    while True:
        out += ["There", "are", "%d" % left, "Take", "how", "many?"]
        x = ch.int(1, 3)
        if ch.chance(15): x = ch.pick([0, 4, -1, 1.5])
        rep.append("%g" % x)
        if x < 1 or x > 3 or x != int(x) or x > left: out += ["Cheat!"]; continue
        left -= x
        if left == 0: out += ["You", "win"]; break
        c = left % 4 or 1
        out += ["I", "take", "%d" % c]
        left -= c
        if left == 0: out += ["I", "win"]; break
    return (["N=%d" % n, "@a PRINT \"There are\";N", "INPUT \"Take how many\"; X:PRINT", "IF X<1 OR X>3 OR X<>INT(X) OR X>N THEN PRINT \"Cheat!\":GOTO @a", "N=N-X", "IF N=0 THEN PRINT \"You win\":GOTO @z", "C=N-4*INT(N/4)", "IF C=0 THEN C=1", "PRINT \"I take\";C", "N=N-C", "IF N>0 THEN @a ELSE @b", "@b PRINT \"I win\"", "@z REM"], rep, out)

def weekday(ch):
    y, m, d = ch.int(1583, 2400), ch.int(1, 12), ch.int(1, 28)
    import datetime
    w = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"][(datetime.date(y, m, d).weekday() + 1) % 7]
    return (["DIM D$(6)", "RESTORE @d:FOR I=0 TO 6:READ D$(I):NEXT", "DEF IDIV4(X)=INT(X/4)", "DEF M7(X)=X-INT(X/7)*7", "INPUT Y,M,D:PRINT", "IF M<3 THEN M=M+12:Y=Y-1", "W=D+INT(13*(M+1)/5)+Y+IDIV4(Y)-INT(Y/100)+INT(Y/400)+6", "W=M7(W)", "PRINT D$(W)", "GOTO @z", "@d DATA Sunday,Monday,Tuesday,Wednesday", "DATA Thursday,Friday,Saturday", "@z REM"],
            ["%d,%d,%d" % (y, m, d)], ["?", w])

def wordcount(ch):
    ws = [ch.pick(WORDS) for _ in range(ch.int(0, 12))]
    s = "".join(w + " " * ch.int(1, 3) for w in ws)
    if ch.chance(50): s = "  " + s
    return (["LINE INPUT \"text\";T$:PRINT", "N=0:L=0:I=1", "@a IF I>LEN(T$) THEN @c", "IF MID$(T$,I,1)=\" \" THEN I=I+1:GOTO @a", "J=I", "@b IF J<=LEN(T$) THEN IF MID$(T$,J,1)<>\" \" THEN J=J+1:GOTO @b", "W$=MID$(T$,I,J-I)", "N=N+1:I=J", "IF LEN(W$)>L THEN L=LEN(W$):L$=W$", "GOTO @a", "@c PRINT N;L;L$"],
            [s], ["text?", "%d" % len(ws), "%d" % max([len(w) for w in ws] or [0])] + ([next(w for w in ws if len(w) == max(map(len, ws)))] if ws else []))

def life(ch):
    h, w, gens = ch.int(3, 6), ch.int(3, 7), ch.int(1, 2)
    g = [[ch.int(0, 1) for _ in range(w)] for _ in range(h)]
    rows = ["".join("*" if x else "." for x in r) for r in g]
    for _ in range(gens):
        g = [[(lambda k: 1 if k == 3 or k == 2 and g[i][j] else 0)(sum(g[a][b] for a in range(max(0, i - 1), min(h, i + 2)) for b in range(max(0, j - 1), min(w, j + 2)) if (a, b) != (i, j))) for j in range(w)] for i in range(h)]
    return (["DIM A(%d,%d),B(%d,%d)" % (h + 1, w + 1, h + 1, w + 1), "RESTORE @d", "FOR I=1 TO %d" % h, "READ R$", "FOR J=1 TO %d" % w, "IF MID$(R$,J,1)=\"*\" THEN A(I,J)=1", "NEXT J,I",
             "FOR G=1 TO %d" % gens, "FOR I=1 TO %d:FOR J=1 TO %d" % (h, w), "K=-A(I,J)", "FOR X=I-1 TO I+1", "FOR Y=J-1 TO J+1:K=K+A(X,Y):NEXT", "NEXT", "B(I,J)=0", "IF K=3 OR K=2 AND A(I,J) THEN B(I,J)=1", "NEXT:NEXT",
             "FOR I=1 TO %d:FOR J=1 TO %d:A(I,J)=B(I,J):NEXT J:NEXT I" % (h, w), "NEXT G",
             "FOR I=1 TO %d:R$=\"\"" % h, "FOR J=1 TO %d" % w, "IF A(I,J) THEN R$=R$+\"*\" ELSE R$=R$+\".\"", "NEXT J", "PRINT R$", "NEXT I", "GOTO @z", "@d REM"] + ["DATA \"%s\"" % r for r in rows] + ["@z REM"],
            [], ["".join("*" if x else "." for x in r) for r in g])

def josephus(ch):
    n, k = ch.int(1, 15), ch.int(1, 7)
    q, out, i = list(range(1, n + 1)), [], 0
    while q: i = (i + k - 1) % len(q); out.append(q.pop(i))
    return (["N=%d:K=%d" % (n, k), "DIM L(N)", "FOR I=0 TO N-1:L(I)=I+1:NEXT", "P=0", "@a P=P+K-1", "@m IF P>=N THEN P=P-N:GOTO @m", "PRINT L(P);", "IF N=1 THEN @z", "I=P", "@s IF I<N-1 THEN L(I)=L(I+1):I=I+1:GOTO @s", "N=N-1:GOTO @a", "@z PRINT"], [], nums(out))

def collatz(ch):
    n = ch.int(1, 60); r, x = [n], n
    while x != 1 and len(r) < 40: x = 3 * x + 1 if x % 2 else x // 2; r.append(x)
    return (["N=%d:C=1:PRINT N;" % n, "@a IF N=1 OR C>=40 THEN @z", "IF N/2=INT(N/2) THEN N=N/2 ELSE N=3*N+1", "PRINT N;:C=C+1:GOTO @a", "@z PRINT"], [], nums(r))

def histogram(ch):
    xs = [ch.int(0, 12) for _ in range(ch.int(1, 8))]
    out = []
    for i, x in enumerate(xs): out += ["%d" % (i + 1), "|" + "#" * x]
    return (["RESTORE @d", "FOR I=1 TO %d" % len(xs), "READ V", "PRINT I;TAB(6);\"|\";", "IF V>0 THEN FOR J=1 TO V:PRINT \"#\";:NEXT J", "PRINT", "NEXT I", "GOTO @z"] + ["@d DATA " + ",".join(map(str, xs))] + ["@z REM"], [], out)

def pascal(ch):
    n = ch.int(1, 10)
    out, r = [], [1]
    for _ in range(n): out += r; r = [1] + [a + b for a, b in zip(r, r[1:])] + [1]
    return (["DIM P(%d)" % (n + 1), "P(0)=1", "FOR I=0 TO %d" % (n - 1), "PRINT TAB(%d-I*2);" % (2 * n + 2), "FOR J=0 TO I:PRINT P(J);:NEXT J", "PRINT", "FOR J=I+1 TO 1 STEP -1:P(J)=P(J)+P(J-1):NEXT", "NEXT I"], [], nums(out))

def newton(ch):
    x = ch.int(1, 5000)
    return (["X=%d:R=X" % x, "FOR I=1 TO 30:R=(R+X/R)/2:NEXT", "PRINT R;SQR(X);ABS(R*R-X)<.001"], [], ["%g" % math.sqrt(x), "%g" % math.sqrt(x), "-1"])

def queens(ch):
    n = ch.int(1, 4)
    def ok(c, r): return all(c[i] != c[r] and abs(c[i] - c[r]) != r - i for i in range(r))
    out = []
    def go(c):
        r = len(c)
        if r == n: out.extend(["".join(map(str, c))]); return
        for k in range(1, n + 1):
            if ok(c + [k], r): go(c + [k])
    go([])
    return (["N=%d" % n, "DIM Q(N+1)", "R=1:Q(1)=0:S=0", "@a Q(R)=Q(R)+1", "IF Q(R)>N THEN R=R-1:IF R=0 THEN @z", "IF R=0 THEN @z", "IF Q(R)>N THEN @a", "GOSUB @t", "IF NOT K THEN @a", "IF R<N THEN R=R+1:Q(R)=0:GOTO @a",
             "FOR I=1 TO N:PRINT CHR$(48+Q(I));:NEXT:PRINT", "S=S+1:GOTO @a",
             "@t K=0", "I=1", "@i IF I>=R THEN K=-1:RETURN", "IF Q(I)=Q(R) OR ABS(Q(I)-Q(R))=R-I THEN RETURN", "I=I+1:GOTO @i", "@z PRINT S;\"solutions\""], [], out + ["%d" % len(out), "solutions"])

def rle(ch):
    s = "".join(ch.pick("abc") * ch.int(1, 12) for _ in range(ch.int(1, 6)))
    out = ""
    i = 0
    while i < len(s):
        j = i
        while j < len(s) and s[j] == s[i]: j += 1
        out += str(j - i) + s[i]; i = j
    return (["INPUT S$:PRINT", "O$=\"\":C=1", "FOR I=1 TO LEN(S$)", "A$=MID$(S$,I,1)", "IF I<LEN(S$) THEN IF MID$(S$,I+1,1)=A$ THEN C=C+1:GOTO @n", "O$=O$+STR$(C)+A$:C=1", "@n NEXT I", "PRINT O$",
             "D$=\"\":P=1", "@d IF P>LEN(O$) THEN @z", "V=0", "@v C$=MID$(O$,P,1)", "IF C$>=\"0\" AND C$<=\"9\" THEN V=V*10+VAL(C$):P=P+1:GOTO @v", "FOR J=1 TO V:D$=D$+MID$(O$,P,1):NEXT", "P=P+1:GOTO @d", "@z PRINT D$;\" \";D$=S$"], [s], ["?", out, s, "-1"])

def permutations(ch):
    n = ch.int(1, 4)
    import itertools
    out = ["".join(p) for p in itertools.permutations("1234"[:n])]
    # next permutation in order
    return (["N=%d" % n, "P$=LEFT$(\"1234\",N)", "@a PRINT P$", "I=N-1", "@i IF I<1 THEN @z", "IF MID$(P$,I,1)>=MID$(P$,I+1,1) THEN I=I-1:GOTO @i", "J=N", "@j IF MID$(P$,J,1)<=MID$(P$,I,1) THEN J=J-1:GOTO @j",
             "X$=LEFT$(P$,I-1)+MID$(P$,J,1)", "Y$=MID$(P$,I+1,N):Y$=LEFT$(Y$,J-I-1)+MID$(P$,I,1)+RIGHT$(Y$,N-J)", "FOR K=LEN(Y$) TO 1 STEP -1:X$=X$+MID$(Y$,K,1):NEXT", "P$=X$:GOTO @a", "@z REM"], [], out)

def lottery(ch):
    # a generator of its own
    s, n = ch.int(0, 9999), ch.int(1, 20)
    out, x, c = [], s, [0] * 6
    for _ in range(n): x = (x * 137 + 71) % 10007; out.append(x % 6 + 1); c[x % 6] += 1
    return (["DIM C(6)", "DEF MODU(X)=X-M*INT(X/M)", "S=%d" % s, "FOR I=1 TO %d" % n, "M=10007:S=MODU(S*137+71)", "M=6:D=MODU(S)+1", "ON D GOSUB @1,@2,@3,@4,@5,@6", "PRINT D;:NEXT", "PRINT", "FOR I=1 TO 6:PRINT C(I);:NEXT:PRINT", "GOTO @z"] + ["@%d C(%d)=C(%d)+1:RETURN" % (i, i, i) for i in range(1, 7)] + ["@z REM"], [], nums(out + c))

def magicsquare(ch):
    n = ch.pick([1, 3, 5])
    g = [[0] * n for _ in range(n)]
    i, j = 0, n // 2
    for k in range(1, n * n + 1):
        g[i][j] = k
        a, b = (i - 1) % n, (j + 1) % n
        if g[a][b]: i = (i + 1) % n
        else: i, j = a, b
    return (["N=%d" % n, "DIM M(N,N)", "I=0:J=INT(N/2)", "FOR K=1 TO N*N", "M(I,J)=K", "A=I-1:B=J+1", "IF A<0 THEN A=N-1", "IF B=N THEN B=0", "IF M(A,B) THEN I=I+1:IF I=N THEN I=0", "IF M(A,B)=0 THEN I=A:J=B", "NEXT K", "FOR I=0 TO N-1", "FOR J=0 TO N-1", "PRINT M(I,J),", "NEXT J:PRINT:NEXT I"], [], nums(x for r in g for x in r))

def calculator(ch):
    rep, out, stack = [], [], []
    for _ in range(ch.int(1, 12)):
        c = ch.pick("nnn+-*/p?")
        out += [":?"]
        if c == "n": x = ch.int(-50, 50); rep.append("%d" % x); stack.append(float(x)); continue
        rep.append(c)
        if c == "p": out += [("%g" % x) for x in stack]; continue
        if c == "?" or len(stack) < 2: out += ["what?" if c == "?" else "empty"]; continue
        b = stack.pop(); a = stack.pop()
        if c == "/" and b == 0: out += ["zero"]; stack += [a, b]; continue
        stack.append(a + b if c == "+" else a - b if c == "-" else a * b if c == "*" else a / b)
    rep.append("quit"); out += [":?", "bye"]
    return (["DIM S(20):P=0", "@c INPUT \":\"; C$:PRINT", "IF C$=\"quit\" THEN PRINT \"bye\":GOTO @z", "K=0", "FOR I=1 TO 6", "IF C$=MID$(\"+-*/p?\",I,1) THEN K=I", "NEXT", "IF K=0 THEN P=P+1:S(P)=VAL(C$):GOTO @c",
             "IF K=5 THEN @p", "IF K=6 THEN PRINT \"what?\":GOTO @c", "IF P<2 THEN PRINT \"empty\":GOTO @c", "A=S(P-1):B=S(P)", "ON K GOTO @1,@2,@3,@4", "@1 R=A+B:GOTO @r", "@2 R=A-B:GOTO @r", "@3 R=A*B:GOTO @r", "@4 IF B=0 THEN PRINT \"zero\":GOTO @c", "R=A/B", "@r P=P-1:S(P)=R:GOTO @c",
             "@p IF P=0 THEN @c", "FOR I=1 TO P:PRINT S(I):NEXT", "GOTO @c", "@z REM"], rep, out)

def maze(ch):
    # rooms and exits in DATA, moves typed
    n = ch.int(2, 6)
    ex = [[ch.int(0, n) for _ in range(4)] for _ in range(n)]
    rep, out, r = [], [], 1
    D = ["n", "s", "e", "w"]
    for _ in range(ch.int(1, 10)):
        out += ["Room", "%d" % r, "go?"]
        d = ch.pick(D + ["up", "N", ""])
        rep.append(d)
        if d not in D: out += ["How?"]; continue
        x = ex[r - 1][D.index(d)]
        if x: r = x
        else: out += ["A", "wall."]
    out += ["Room", "%d" % r, "go?", "Bye"]; rep.append("q")
    return (["DIM E(%d,4),D$(4)" % n, "RESTORE @d", "FOR I=1 TO %d:FOR J=1 TO 4:READ E(I,J):NEXT J,I" % n, "FOR J=1 TO 4:READ D$(J):NEXT", "R=1", "@a PRINT \"Room\";R", "INPUT \"go\";C$:PRINT", "IF C$=\"q\" THEN PRINT \"Bye\":GOTO @z", "J=1", "@j IF D$(J)<>C$ THEN J=J+1:IF J<=4 THEN @j", "IF J>4 THEN PRINT \"How?\":GOTO @a", "IF E(R,J)=0 THEN PRINT \"A wall.\":GOTO @a", "R=E(R,J):GOTO @a", "@d REM"] +
            ["DATA %d,%d,%d,%d" % tuple(e) for e in ex] + ["DATA n,s,e,w", "@z REM"], rep, out)

def fractions(ch):
    k = ch.int(1, 6)
    a, b = ch.int(1, 40), ch.int(1, 40)
    out = []
    x, y = a, b
    while y and len(out) < 12: out.append(x // y); x, y = y, x % y
    return (["A=%d:B=%d:N=0" % (a, b), "@a IF B=0 OR N>=12 THEN @z", "Q=INT(A/B):PRINT Q;:T=A-Q*B:A=B:B=T:N=N+1:GOTO @a", "@z PRINT"], [], nums(out))

def statistics(ch):
    xs = [ch.int(0, 400) / 4 for _ in range(ch.int(1, 15))]
    m = sum(xs) / len(xs)
    return (["DEF SQ(X)=X*X", "S=0:N=0:H=-1E30:L=1E30:RESTORE @d", "@r READ X:IF X<0 THEN @e", "S=S+X:N=N+1", "IF X>H THEN H=X", "IF X<L THEN L=X", "GOTO @r", "@e M=S/N:PRINT N;M;L;H", "RESTORE @d:V=0", "FOR I=1 TO N:READ X:V=V+SQ(X-M):NEXT I", "PRINT INT(V/N*100+.5)/100", "GOTO @z", "@d REM"] + data(xs, 6) + ["DATA -1", "@z REM"],
            [], ["%d" % len(xs), "%g" % m, "%g" % min(xs), "%g" % max(xs), None])

def armstrong(ch):
    # numbers that are the sum of powers of their digits
    k = ch.int(1, 4); a = ch.int(0, 9 * 10 ** (k - 1)); a = max(a, 10 ** (k - 1)); b = min(a + ch.int(0, 60), 10 ** k - 1)
    if k == 3 and ch.chance(60): a, b = ch.pick([(150, 160), (365, 375), (400, 410)])
    out = [x for x in range(a, b + 1) if sum(int(c) ** k for c in str(x)) == x]
    return (["FOR N=%d TO %d" % (a, b), "S=0:M=N", "@d IF M>0 THEN D=M-10*INT(M/10):S=S+D^%d:M=INT(M/10):GOTO @d" % k, "IF S=N THEN PRINT N;", "NEXT N", "PRINT \"done\""], [], nums(out) + ["done"])

def interest(ch):
    p, r, n = ch.pick([100, 1000, 2500, ch.int(1, 50000)]), ch.pick([5, 2.5, 10, ch.int(1, 80) / 4]), ch.int(1, 30)
    out, x = [], float(p)
    for i in range(1, n + 1): x = x + x * r / 100
    y = p * (1 + r / 100.0) ** n
    return (["P=%d:R=%g:N=%d" % (p, r, n), "X=P", "FOR Y=1 TO N:X=X+X*R/100:NEXT Y", "PRINT \"After\";N;\"years:\";X", "V=P*(1+R/100)^N", "PRINT INT(V*100+.5)/100;ABS(V-X)<.001"], [], ["After", "%d" % n, "years:", "%g" % x, "%g" % (math.floor(y * 100 + .5) / 100), "-1"])

def triples(ch):
    lo = ch.int(1, 150); hi = lo + ch.int(0, 4); m = ch.int(1, 12)
    out = []
    for a in range(lo, hi + 1):
        for b in range(a, a + m + 1):
            c = math.isqrt(a * a + b * b)
            if c * c == a * a + b * b: out += [a, b, c]
    return (["FOR A=%d TO %d" % (lo, hi), "FOR B=A TO A+%d" % m, "C=SQR(A^2+B^2)", "IF INT(C)^2=A^2+B^2 THEN PRINT A,B,C", "NEXT B,A", "PRINT \"end\""], [], nums(out) + ["end"])

def bigfactorial(ch):
    n = ch.int(1, 22)
    f = str(math.factorial(n))
    return (["DIM D(80)", "D(1)=1:L=1", "FOR N=2 TO %d" % n, "C=0", "FOR I=1 TO L", "V=D(I)*N+C:C=INT(V/10):D(I)=V-10*C", "NEXT I", "@c IF C>0 THEN L=L+1:D(L)=C-10*INT(C/10):C=INT(C/10):GOTO @c", "NEXT N" if n > 1 else "REM", "F$=\"\"", "FOR I=L TO 1 STEP -1:F$=F$+CHR$(48+D(I)):NEXT I", "PRINT F$", "PRINT LEN(F$)"]
            if n > 1 else ["PRINT \"1\"", "PRINT LEN(\"1\")"], [], [f, str(len(f))])

def clock(ch):
    ts = [ch.int(0, 400000) for _ in range(ch.int(1, 5))]
    out = []
    for t in ts: out.append("%d:%02d:%02d" % (t // 3600, t // 60 % 60, t % 60))
    return (["DEF TWO$(X)=RIGHT$(\"0\"+STR$(X),2)", "RESTORE @d:FOR K=1 TO %d" % len(ts), "READ T", "H=INT(T/3600):M=INT((T-H*3600)/60):S=T-H*3600-M*60", "PRINT STR$(H)+\":\"+TWO$(M)+\":\"+TWO$(S)", "NEXT K", "GOTO @z", "@d REM"] + data(ts, 3) + ["@z REM"], [], out)

def binarysearch(ch):
    xs = sorted({ch.int(-500, 500) for _ in range(ch.int(1, 40))})
    qs = [ch.pick(xs) if ch.chance(60) else ch.int(-510, 510) for _ in range(ch.int(1, 6))]
    out = []
    for q in qs: out += ["?"] + (["at", "%d" % (xs.index(q) + 1)] if q in xs else ["none"])
    return (["N=%d:DIM A(N):RESTORE @d" % len(xs), "FOR I=1 TO N:READ A(I):NEXT", "FOR K=1 TO %d" % len(qs), "INPUT Q:PRINT", "L=1:H=N", "@b IF L>H THEN PRINT \"none\":GOTO @n", "M=INT((L+H)/2)", "IF A(M)=Q THEN PRINT \"at\";M:GOTO @n", "IF A(M)<Q THEN L=M+1 ELSE H=M-1", "GOTO @b", "@n NEXT K", "GOTO @z", "@d REM"] + data(xs) + ["@z REM"], ["%d" % q for q in qs], out)

def bits(ch):
    a, b = ch.int(-32768, 32767), ch.int(-32768, 32767)
    s, x = "", a & 0xff
    for i in range(7, -1, -1): s += "1" if a >> i & 1 else "0"
    return (["A=%d:B=%d" % (a, b), "PRINT A AND B;A OR B;NOT A", "PRINT (A OR B) AND NOT (A AND B)", "M=128:S$=\"\"", "FOR I=1 TO 8", "IF A AND M THEN S$=S$+\"1\" ELSE S$=S$+\"0\"", "M=M/2", "NEXT I", "PRINT S$"], [], nums([a & b, a | b, ~a, a ^ b]) + [s])

def luhn(ch):
    d = [ch.int(0, 9) for _ in range(ch.int(2, 18))]
    if ch.chance(60):
        for x in range(10):
            d[-1] = x
            if sum(v if i % 2 == 0 else sum(divmod(2 * v, 10)) for i, v in enumerate(d[::-1])) % 10 == 0: break
    t = sum(v if i % 2 == 0 else sum(divmod(2 * v, 10)) for i, v in enumerate(d[::-1]))
    return (["INPUT \"card\";C$:PRINT", "S=0:F=0", "FOR I=LEN(C$) TO 1 STEP -1", "V=VAL(MID$(C$,I,1))", "IF F THEN V=V*2:IF V>9 THEN V=V-9", "F=NOT F:S=S+V", "NEXT I", "PRINT S;", "IF S/10=INT(S/10) THEN PRINT \"valid\" ELSE PRINT \"wrong\""], ["".join(map(str, d))], ["card?", "%d" % t, "valid" if t % 10 == 0 else "wrong"])

def brackets(ch):
    t = "".join(ch.pick("()[]{}ab") for _ in range(ch.int(0, 8)))
    if ch.chance(60):
        t = "x"
        for _ in range(ch.int(1, 7)):
            o, c = ch.pick(["()", "[]", "{}"]); t = o + t + c if ch.chance(60) else t + o + c
    st, r = [], 0
    for i, c in enumerate(t):
        if c in "([{": st.append(c)
        elif c in ")]}":
            if not st or "([{".index(st.pop()) != ")]}".index(c): r = i + 1; break
    if not r and st: r = -1
    return (["T$=\"%s\":S$=\"\"" % t, "FOR I=1 TO LEN(T$)" if t else "IF 1 THEN @e", "C$=MID$(T$,I,1)", "FOR J=1 TO 3", "IF C$=MID$(\"([{\",J,1) THEN S$=STR$(J)+S$", "IF C$=MID$(\")]}\",J,1) THEN GOSUB @p:IF R THEN @x", "NEXT J", "NEXT I" if t else "REM", "@e IF S$<>\"\" THEN R=-1", "@x PRINT R:GOTO @z", "@p R=I:IF S$=\"\" THEN RETURN", "IF LEFT$(S$,1)=STR$(J) THEN R=0", "S$=MID$(S$,2,LEN(S$)-1)" if 0 else "S$=RIGHT$(S$,LEN(S$)-1):RETURN", "@z REM"]
            if t else ["R=0", "PRINT R"], [], ["%d" % r])

def change(ch):
    n = ch.int(0, 500) * 5 + ch.pick([0, 0, 1, 4])
    cs = [200, 100, 50, 20, 10, 5, 2, 1]
    out, x = [], n
    for c in cs:
        if x >= c: out += ["%d" % (x // c), "x", "%d" % c]; x %= c
    return (["N=%d:RESTORE @d" % n, "FOR I=1 TO 8", "READ C:IF N<C THEN @n", "PRINT INT(N/C);\"x\";C,", "N=N-C*INT(N/C)", "@n NEXT I", "PRINT:PRINT \"left\";N:GOTO @z", "@d DATA 200,100,50,20,10,5,2,1", "@z REM"], [], out + ["left", "0"])

def wrap(ch):
    ws = [ch.pick(WORDS) for _ in range(ch.int(1, 25))]
    w = ch.int(5, 30)
    lines, cur = [], ""
    for x in ws:
        if cur and len(cur) + 1 + len(x) > w: lines.append(cur); cur = x
        else: cur = cur + " " + x if cur else x
    lines.append(cur)
    out = []
    for i, l in enumerate(lines): out += ["%d" % (i + 1)] + l.split()
    return (["W=%d:L$=\"\":N=0:RESTORE @d" % w, "FOR I=1 TO %d" % len(ws), "READ X$", "IF L$=\"\" THEN L$=X$:GOTO @n", "IF LEN(L$)+1+LEN(X$)>W THEN GOSUB @o:L$=X$:GOTO @n", "L$=L$+\" \"+X$", "@n NEXT I", "GOSUB @o:GOTO @z", "@o N=N+1:PRINT N;L$:RETURN", "@d REM"] + data(ws, 6) + ["@z REM"], [], out)

def frequency(ch):
    ws = [ch.pick(WORDS[:9]) for _ in range(ch.int(1, 30))]
    seen = []
    for w in ws:
        if w not in seen: seen.append(w)
    out = []
    for w in seen: out += [w, "%d" % ws.count(w)]
    return (["DIM W$(30),C(30):N=0:RESTORE @d", "@r READ X$:IF X$=\"end\" THEN @e", "FOR I=1 TO N" if 0 else "I=1", "@i IF I>N THEN N=N+1:W$(N)=X$:C(N)=1:GOTO @r", "IF W$(I)=X$ THEN C(I)=C(I)+1:GOTO @r", "I=I+1:GOTO @i", "@e FOR I=1 TO N:PRINT W$(I);TAB(12);C(I):NEXT I", "GOTO @z", "@d REM"] + data(ws, 5) + ["DATA end", "@z REM"], [], out)

def perfect(ch):
    n = ch.pick([6, 28, 496, ch.int(2, 600)])
    ds = [d for d in range(1, n) if n % d == 0]
    k = "perfect" if sum(ds) == n else "abundant" if sum(ds) > n else "deficient"
    return (["N=%d:S=0" % n, "FOR D=1 TO N/2", "IF N=D*INT(N/D) THEN S=S+D:PRINT D;", "NEXT", "PRINT S", "IF S=N THEN PRINT \"perfect\" ELSE IF S>N THEN PRINT \"abundant\" ELSE PRINT \"deficient\""], [], nums(ds + [sum(ds)]) + [k])

def largemod(ch):
    m = ch.int(2, 99991); xs = [ch.pick([ch.int(0, 999999), ch.int(0, 2 ** 31), ch.int(0, 2 ** 40)]) for _ in range(ch.int(1, 5))]
    return (["DEF MODULO(X)=X-M*INT(X/M)", "M=%d" % m] + ["PRINT MODULO(%d);INT(%d/M)*M+MODULO(%d)=%d" % (x, x, x, x) for x in xs], [], [y for x in xs for y in ("%g" % (x % m), "-1")])

def powermod(ch):
    b, e, m = ch.int(2, 300), ch.int(0, 60), ch.int(2, 9999)
    return (["B=%d:E=%d:M=%d:R=1" % (b, e, m), "@a IF E=0 THEN @e", "IF E/2<>INT(E/2) THEN R=R*B:R=R-M*INT(R/M)", "B=B^2:B=B-M*INT(B/M):E=INT(E/2):GOTO @a", "@e PRINT R-M*INT(R/M)"], [], ["%g" % (pow(b, e, m))])

def simpson(ch):
    n = ch.pick([2, 4, 10, 20, 50]); a, b = ch.int(-2, 2), ch.int(3, 6)
    # of a cubic, which the rule gets exactly
    c = [ch.int(-5, 5) for _ in range(4)]
    F = lambda x: c[0] * x + c[1] * x ** 2 / 2 + c[2] * x ** 3 / 3 + c[3] * x ** 4 / 4
    v = F(b) - F(a)
    return (["DEF POLY(X)=%d+X*(%d+X*(%d+X*%d))" % tuple(c), "A=%d:B=%d:N=%d" % (a, b, n), "H=(B-A)/N:S=POLY(A)+POLY(B)", "FOR I=1 TO N-1", "K=2:IF I/2<>INT(I/2) THEN K=4", "S=S+K*POLY(A+I*H)", "NEXT I", "V=S*H/3", "PRINT ABS(V-(%d/12))<.0001" % round(v * 12)], [], ["-1"])

def noughts(ch):
    g = [ch.pick("XO.") for _ in range(9)]
    L = [(0, 1, 2), (3, 4, 5), (6, 7, 8), (0, 3, 6), (1, 4, 7), (2, 5, 8), (0, 4, 8), (2, 4, 6)]
    out = []
    for l in L:
        if g[l[0]] != "." and g[l[0]] == g[l[1]] == g[l[2]]: out.append(g[l[0]] + "-wins")
    return (["DIM B$(2,2):G$=\"%s\"" % "".join(g), "FOR I=0 TO 2:FOR J=0 TO 2:B$(I,J)=MID$(G$,3*I+J+1,1):NEXT J,I", "RESTORE @d", "FOR K=1 TO 8", "READ A,B,C", "P=A:GOSUB @g:X$=V$:P=B:GOSUB @g:Y$=V$:P=C:GOSUB @g", "IF X$<>\".\" AND X$=Y$ AND Y$=V$ THEN PRINT V$+\"-wins\"", "NEXT K", "PRINT \"over\"", "GOTO @z", "@g I=INT(P/3):V$=B$(I,P-3*I):RETURN", "@d DATA 0,1,2,3,4,5,6,7,8,0,3,6", "DATA 1,4,7,2,5,8,0,4,8,2,4,6", "@z REM"], [], out + ["over"])

def table(ch):
    a, b, s = ch.int(-40, 100), ch.int(0, 8), ch.pick([1, 2, 5, 10, .5])
    out = ["C", "F"]
    for i in range(b + 1): x = a + i * s; out += ["%g" % x, "%g" % (x * 9 / 5 + 32)]
    return (["PRINT \"C\",\"F\"", "FOR T=%d TO %g STEP %g" % (a, a + b * s, s), "PRINT T,T*9/5+32", "NEXT T"], [], out)

def queue(ch):
    # a circular queue worked by commands
    n = ch.int(1, 5); q, rep, out, k = [], [], [], 0
    for _ in range(ch.int(1, 15)):
        out.append(">?")
        if ch.chance(55):
            k += 1; w = ch.pick(WORDS); rep.append("add," + w)
            if len(q) == n: out.append("full")
            else: q.append(w)
        else:
            rep.append("take,x")
            if q: out.append(q.pop(0))
            else: out.append("empty")
    rep.append("stop,"); out += [">?", "%d" % len(q)]
    return (["N=%d:DIM Q$(N-1):H=0:L=0" % n, "@c INPUT \">\";C$,W$:PRINT", "IF C$=\"stop\" THEN PRINT L:GOTO @z", "IF C$=\"add\" THEN GOSUB @a ELSE GOSUB @t", "GOTO @c", "@a IF L=N THEN PRINT \"full\":RETURN", "T=H+L:IF T>=N THEN T=T-N", "Q$(T)=W$:L=L+1:RETURN", "@t IF L=0 THEN PRINT \"empty\":RETURN", "PRINT Q$(H):H=H+1:L=L-1:IF H=N THEN H=0", "RETURN", "@z REM"], rep, out)

GAMES = [sort_numbers, sort_words, sieve, gcd, factors, base, roman, caesar, palindrome, fibonacci, matrix, hilo, hanoi, matches, weekday, wordcount, life, josephus, collatz, histogram, pascal, newton, queens, rle,
         permutations, lottery, magicsquare, calculator, maze, fractions, statistics,
         armstrong, interest, triples, bigfactorial, clock, binarysearch, bits, luhn, brackets, change, wrap, frequency, perfect, largemod, powermod, simpson, noughts, table, queue]
