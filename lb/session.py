"""Reference model of the interactive monitor: builds the standard input of a session and what it must print."""
from .engine import Discard
from .lang import Vm, text_of, file_text
from .parse import parse_line, Bad, Parser

MAXTYPED = 126

class Session:
    def __init__(self, replies=None, crunch=False, max_steps=20000):
        self.vm = Vm(reader=self._reader, max_steps=max_steps)
        self.replies = replies            # function returning the next reply to INPUT, or None for end of input
        self.crunch = crunch
        self.stdin = []                   # complete lines, with newlines
        self.reports = []                 # expected error reports
        self.at = []                      # length of standard output when they are made
        self.stored = {}                  # number -> text
        self.have = False                 # a stored program (perhaps empty) exists
        self.compiled = False
        self.ended = False
        self.files = {}                   # files written by SAVE
        self.bad_report = None

    # --- input
    def _reader(self):
        s = self.replies() if self.replies else None
        if s is None:
            self.ended = True
            return None
        self.stdin.append(s + "\n")
        return s + "\n"

    def type(self, text):
        if self.ended: raise Discard("typed after the end of input")
        if len(text) > MAXTYPED: raise Discard("typed line too long")
        self.vm.put("> ")
        self.stdin.append(text + "\n")

    def overlong(self, text):
        """a line too long for the monitor: reported and forgotten, all of it"""
        assert len(text) > MAXTYPED and "\n" not in text
        if self.ended: raise Discard("typed after the end of input")
        self.vm.put("> ")
        self.stdin.append(text + "\n")
        self.say("Command line too long")

    def say(self, s): self.vm.put(s + "\n")

    # --- stored program
    def changed(self):
        self.compiled = False
        self.vm.prog = None
        self.vm.cont = None

    def line(self, n, text, typed=None):
        """Type a program line; typed: how it is typed, if not 'n text'."""
        self.type("%d %s" % (n, text) if typed is None else typed)
        if not 0 < n < 4294967295: return self.say("Invalid line number")
        self.stored[n] = text
        self.have = True
        self.changed()

    def delete(self, n):
        self.type("%d" % n)
        if not 0 < n < 4294967295: return self.say("Invalid line number")
        if n in self.stored:
            del self.stored[n]
            self.changed()

    def ensure(self):
        """Compile the stored program if need be. False: it has a syntax error, which is reported."""
        if not self.have or self.compiled: return True
        self.vm.clear_names()
        tl = sorted(self.stored.items())
        asts = []
        for n, t in tl:
            try: asts.append((n, parse_line(t, self.vm.kinds, self.crunch)))
            except Bad:
                self.report("syntax", [n, t])
                self.vm.clear_names()
                return False
        self.vm.load(tl, asts)
        self.kinds0 = dict(self.vm.kinds)
        self.compiled = True
        return True

    def report(self, kind, line):
        self.reports.append([kind, line])
        self.at.append(self.vm.length())

    def flush(self):
        for e in self.vm.errors: self.report("run", list(e) if e else None)
        self.vm.errors = []

    # --- what is typed
    def imm(self, text, stmts=None, typed=None):
        """Type an immediate statement. Returns how it ended: end, stop, error, syntax, program (has a syntax error)."""
        self.type(text if typed is None else typed)
        text = text.lstrip(" \t")
        if not self.ensure(): return "program"
        try: ast = parse_line(text, self.vm.kinds)
        except Bad:
            self.report("syntax", [0, text])
            return "syntax"
        r = self.vm.run_immediate(text, ast)
        self.flush()
        return r

    def stmts(self, stmts, style=None):
        return self.imm(text_of(stmts, style))

    def run(self, typed="RUN"):
        self.type(typed)
        self.vm.clear_values()
        if not self.have: return "none"
        if not self.ensure(): return "program"
        self.vm.kinds = dict(self.kinds0)
        r = self.vm.run_program()
        self.flush()
        return r

    def cont(self, typed="CONT"):
        self.type(typed)
        r = self.vm.cont_()
        if r is None: self.say("Cannot continue")
        self.flush()
        return r

    def compile(self, typed="COMPILE"):
        self.type(typed)
        return self.ensure()

    def new(self, typed="NEW"):
        self.type(typed)
        self.stored = {}
        self.changed_if_have()
        self.vm.clear_names()

    def changed_if_have(self):
        if self.have: self.changed()

    def list(self, a=None, b=None, typed=None):
        """LIST; a: start, b: end, None: open."""
        if typed is None:
            if a is None and b is None: typed = "LIST"
            elif a is not None and b is None: typed = "LIST %d" % a
            elif a is None: typed = "LIST -%d" % b
            else: typed = "LIST %d-%d" % (a, b)
        self.type(typed)
        for n, t in sorted(self.stored.items()):
            if n >= (a or 0) and (b is None or n <= b): self.say("%d %s" % (n, t))

    def save(self, name, typed=None):
        self.type('SAVE "%s"' % name if typed is None else typed)
        if self.have:
            self.files[name] = "".join("%d %s\n" % (n, t) for n, t in sorted(self.stored.items()))

    def load(self, name, lines, typed=None):
        """lines: [(n, text)] the file holds, or None if it cannot be loaded."""
        self.type('LOAD "%s"' % name if typed is None else typed)
        if lines is not None:
            self.stored = dict(lines)
            self.have = True
            self.changed()

    def os(self, text):
        """Type a command for the operating system: text begins with blanks and an asterisk."""
        self.type(text)
        c = text.lstrip(" \t")[1:].lstrip(" \t")
        if c: self.vm.system.append([self.vm.length(), c])

    def bye(self, typed="BYE"):
        self.type(typed)
        self.ended = True
        self.said_bye = True

    said_bye = False

    def finish(self, args=("-q",), **kw):
        if not self.said_bye: self.vm.put("> ")
        d = dict(args=list(args), stdin="".join(self.stdin), out=self.vm.output(), errors=self.reports, at=self.at, code=0)
        if self.files: d["saved"] = dict(self.files)
        d.update(kw)
        return d
