"""Reference of CSS Syntax Module Level 3 (Editor's Draft of 2020, before nesting): preprocessing,
tokenization (section 4), parsing (section 5).  Tokens and component values are nested tuples."""

EOF = None


def preprocess(cps):
    out = []
    i = 0
    while i < len(cps):
        c = cps[i]
        if c == 0x0D:
            if i + 1 < len(cps) and cps[i + 1] == 0x0A:
                i += 1
            out.append(0x0A)
        elif c == 0x0C:
            out.append(0x0A)
        elif c == 0 or 0xD800 <= c <= 0xDFFF:
            out.append(0xFFFD)
        else:
            out.append(c)
        i += 1
    return out


def digit(c): return c is not None and 0x30 <= c <= 0x39
def hexd(c): return c is not None and (digit(c) or 0x41 <= c <= 0x46 or 0x61 <= c <= 0x66)
def idstart(c): return c is not None and (0x41 <= c <= 0x5A or 0x61 <= c <= 0x7A or c >= 0x80 or c == 0x5F)
def idcp(c): return idstart(c) or digit(c) or c == 0x2D
def ws(c): return c in (0x0A, 0x09, 0x20)
def nonprint(c): return c is not None and (c <= 8 or c == 0x0B or 0x0E <= c <= 0x1F or c == 0x7F)


class Lexer:
    def __init__(self, cps):
        self.s = cps
        self.i = 0

    def at(self, k=0):
        j = self.i + k
        return self.s[j] if j < len(self.s) else None

    def escape_at(self, k=0):
        return self.at(k) == 0x5C and self.at(k + 1) is not None and self.at(k + 1) != 0x0A

    def ident_at(self, k=0):
        c = self.at(k)
        if c == 0x2D:
            return idstart(self.at(k + 1)) or self.at(k + 1) == 0x2D or self.escape_at(k + 1)
        if idstart(c):
            return True
        return self.escape_at(k)

    def number_at(self, k=0):
        c = self.at(k)
        if c in (0x2B, 0x2D):
            return digit(self.at(k + 1)) or (self.at(k + 1) == 0x2E and digit(self.at(k + 2)))
        if c == 0x2E:
            return digit(self.at(k + 1))
        return digit(c)

    def escaped(self):
        c = self.at()
        if c is None:
            return 0xFFFD
        self.i += 1
        if hexd(c):
            v = chr(c)
            while len(v) < 6 and hexd(self.at()):
                v += chr(self.at())
                self.i += 1
            if ws(self.at()):
                self.i += 1
            n = int(v, 16)
            return 0xFFFD if n == 0 or 0xD800 <= n <= 0xDFFF or n > 0x10FFFF else n
        return c

    def name(self):
        out = []
        while True:
            c = self.at()
            if idcp(c):
                out.append(c)
                self.i += 1
            elif self.escape_at():
                self.i += 1
                out.append(self.escaped())
            else:
                return tuple(out)

    def number(self):
        t, r = "integer", ""

        def take():
            nonlocal r
            r += chr(self.at())
            self.i += 1
        if self.at() in (0x2B, 0x2D):
            take()
        while digit(self.at()):
            take()
        if self.at() == 0x2E and digit(self.at(1)):
            take()
            t = "number"
            while digit(self.at()):
                take()
        if self.at() in (0x45, 0x65) and (digit(self.at(1)) or (self.at(1) in (0x2B, 0x2D) and digit(self.at(2)))):
            take()
            take()
            while digit(self.at()):
                take()
            t = "number"
        return float(r), t

    def numeric(self):
        v, t = self.number()
        if self.ident_at():
            return ("dimension", v, t, self.name())
        if self.at() == 0x25:
            self.i += 1
            return ("percentage", v)
        return ("number", v, t)

    def string(self, q):
        out = []
        while True:
            c = self.at()
            if c is None:
                return ("string", tuple(out))
            if c == q:
                self.i += 1
                return ("string", tuple(out))
            if c == 0x0A:
                return ("bad-string",)
            self.i += 1
            if c == 0x5C:
                if self.at() is None:
                    pass
                elif self.at() == 0x0A:
                    self.i += 1
                else:
                    out.append(self.escaped())
            else:
                out.append(c)

    def bad_url(self):
        while True:
            c = self.at()
            if c is None:
                return ("bad-url",)
            if self.escape_at():
                self.i += 1
                self.escaped()
                continue
            self.i += 1
            if c == 0x29:
                return ("bad-url",)

    def url(self):
        while ws(self.at()):
            self.i += 1
        out = []
        while True:
            c = self.at()
            if c is None:
                return ("url", tuple(out))
            if c == 0x29:
                self.i += 1
                return ("url", tuple(out))
            if ws(c):
                while ws(self.at()):
                    self.i += 1
                if self.at() is None:
                    return ("url", tuple(out))
                if self.at() == 0x29:
                    self.i += 1
                    return ("url", tuple(out))
                return self.bad_url()
            if c in (0x22, 0x27, 0x28) or nonprint(c):
                self.i += 1
                return self.bad_url()
            if c == 0x5C:
                if self.escape_at():
                    self.i += 1
                    out.append(self.escaped())
                    continue
                self.i += 1
                return self.bad_url()
            out.append(c)
            self.i += 1

    def identlike(self):
        n = self.name()
        if bytes(c for c in n if c < 128).lower() == b"url" and len(n) == 3 and self.at() == 0x28:
            self.i += 1
            while ws(self.at()) and ws(self.at(1)):
                self.i += 1
            if self.at() in (0x22, 0x27) or (ws(self.at()) and self.at(1) in (0x22, 0x27)):
                return ("function-token", n)
            return self.url()
        if self.at() == 0x28:
            self.i += 1
            return ("function-token", n)
        return ("ident", n)

    def token(self):
        while self.at() == 0x2F and self.at(1) == 0x2A:
            self.i += 2
            while self.at() is not None and not (self.at() == 0x2A and self.at(1) == 0x2F):
                self.i += 1
            if self.at() is not None:
                self.i += 2
        c = self.at()
        if c is None:
            return EOF
        if ws(c):
            while ws(self.at()):
                self.i += 1
            return ("ws",)
        if c in (0x22, 0x27):
            self.i += 1
            return self.string(c)
        if c == 0x23:
            self.i += 1
            if idcp(self.at()) or self.escape_at():
                f = "id" if self.ident_at() else "unrestricted"
                return ("hash", f, self.name())
            return ("delim", c)
        if c in (0x2B, 0x2E):
            if self.number_at():
                return self.numeric()
            self.i += 1
            return ("delim", c)
        if c == 0x2D:
            if self.number_at():
                return self.numeric()
            if self.at(1) == 0x2D and self.at(2) == 0x3E:
                self.i += 3
                return ("cdc",)
            if self.ident_at():
                return self.identlike()
            self.i += 1
            return ("delim", c)
        if c == 0x3C:
            self.i += 1
            if self.at() == 0x21 and self.at(1) == 0x2D and self.at(2) == 0x2D:
                self.i += 3
                return ("cdo",)
            return ("delim", c)
        if c == 0x40:
            self.i += 1
            if self.ident_at():
                return ("at", self.name())
            return ("delim", c)
        if c == 0x5C:
            if self.escape_at():
                return self.identlike()
            self.i += 1
            return ("delim", c)
        if digit(c):
            return self.numeric()
        if idstart(c):
            return self.identlike()
        self.i += 1
        p = {0x28: "(", 0x29: ")", 0x2C: ",", 0x3A: ":", 0x3B: ";", 0x5B: "[", 0x5D: "]", 0x7B: "{", 0x7D: "}"}.get(c)
        return (p,) if p else ("delim", c)

    def all(self):
        out = []
        while True:
            t = self.token()
            if t is EOF:
                return out
            out.append(t)


def tokens(cps):
    return Lexer(preprocess(cps)).all()


class Parser:
    """The input is a list of tokens or component values."""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def next(self):
        return self.t[self.i] if self.i < len(self.t) else EOF

    def take(self):
        t = self.next()
        if t is not EOF:
            self.i += 1
        return t

    def skipws(self):
        while self.next() == ("ws",):
            self.i += 1

    def component(self):
        t = self.take()
        if t in (("{",), ("[",), ("(",)):
            return self.block(t[0])
        if t is not EOF and t[0] == "function-token":
            return self.function(t[1])
        return t

    def block(self, o):
        end = ({"{": "}", "[": "]", "(": ")"}[o],)
        v = []
        while True:
            t = self.next()
            if t is EOF:
                break
            if t == end:
                self.i += 1
                break
            v.append(self.component())
        return ("block", o, tuple(v))

    def function(self, n):
        v = []
        while True:
            t = self.next()
            if t is EOF:
                break
            if t == (")",):
                self.i += 1
                break
            v.append(self.component())
        return ("function", n, tuple(v))

    def at_rule(self):
        n = self.take()[1]
        pre = []
        while True:
            t = self.next()
            if t is EOF:
                return ("at-rule", n, tuple(pre), None)
            if t == (";",):
                self.i += 1
                return ("at-rule", n, tuple(pre), None)
            if t == ("{",):
                self.i += 1
                return ("at-rule", n, tuple(pre), self.block("{"))
            if t[0] == "block" and t[1] == "{":
                self.i += 1
                return ("at-rule", n, tuple(pre), t)
            pre.append(self.component())

    def qualified(self):
        pre = []
        while True:
            t = self.next()
            if t is EOF:
                return None
            if t == ("{",):
                self.i += 1
                return ("rule", tuple(pre), self.block("{"))
            if t[0] == "block" and t[1] == "{":
                self.i += 1
                return ("rule", tuple(pre), t)
            pre.append(self.component())

    def rules(self, top):
        out = []
        while True:
            t = self.next()
            if t is EOF:
                return out
            if t == ("ws",):
                self.i += 1
            elif t[0] in ("cdo", "cdc") and top:
                self.i += 1
            elif t[0] == "at":
                out.append(self.at_rule())
            else:
                q = self.qualified()
                if q:
                    out.append(q)

    def declaration(self):
        n = self.take()[1]
        self.skipws()
        if self.next() != (":",):
            return None
        self.i += 1
        self.skipws()
        v = []
        while self.next() is not EOF:
            v.append(self.component())
        imp = False
        k = [j for j, x in enumerate(v) if x != ("ws",)]
        if len(k) >= 2 and v[k[-2]] == ("delim", 0x21) and v[k[-1]][0] == "ident" and _lower(v[k[-1]][1]) == "important":
            imp = True
            del v[k[-2]:]
        while v and v[-1] == ("ws",):
            v.pop()
        return ("declaration", n, tuple(v), imp)

    def declarations(self):
        out = []
        while True:
            t = self.next()
            if t is EOF:
                return out
            if t in (("ws",), (";",)):
                self.i += 1
            elif t[0] == "at":
                out.append(self.at_rule())
            elif t[0] == "ident":
                tmp = [self.take()]
                while self.next() not in (EOF, (";",)):
                    tmp.append(self.component())
                d = Parser(tmp).declaration()
                if d:
                    out.append(d)
            else:
                while self.next() not in (EOF, (";",)):
                    self.component()

    # entry points
    def parse_stylesheet(self):
        return ("list", tuple(self.rules(True)))

    def parse_list_of_rules(self):
        return ("list", tuple(self.rules(False)))

    def parse_rule(self):
        self.skipws()
        if self.next() is EOF:
            return ("error",)
        if self.next()[0] == "at":
            r = self.at_rule()
        else:
            r = self.qualified()
            if r is None:
                return ("error",)
        self.skipws()
        return r if self.next() is EOF else ("error",)

    def parse_declaration(self):
        self.skipws()
        if self.next() is EOF or self.next()[0] != "ident":
            return ("error",)
        return self.declaration() or ("error",)

    def parse_list_of_declarations(self):
        return ("list", tuple(self.declarations()))

    def parse_component_value(self):
        self.skipws()
        if self.next() is EOF:
            return ("error",)
        c = self.component()
        self.skipws()
        return c if self.next() is EOF else ("error",)

    def parse_list_of_component_values(self):
        out = []
        while self.next() is not EOF:
            out.append(self.component())
        return ("list", tuple(out))

    def parse_comma_separated_list_of_component_values(self):
        out = [[]]
        while self.next() is not EOF:
            c = self.component()
            if c == (",",):
                out.append([])
            else:
                out[-1].append(c)
        return ("list", tuple(("list", tuple(x)) for x in out))


def _lower(n):
    return "".join(chr(c + 32) if 0x41 <= c <= 0x5A else chr(c) for c in n)


def _str(n):
    return "".join(chr(c) if 0x30 <= c < 0x7F and chr(c) not in "{}<>|" else "{%x}" % c for c in n) or "''"


def show(v):
    """Flat rendering: a list of atoms; numbers are floats."""
    out = []
    _show(v, out)
    return out


def _show(v, o):
    k = v[0]
    if k in ("ident", "function-token", "at", "string", "url"):
        o += ["<" + k, _str(v[1]), ">"]
    elif k == "hash":
        o += ["<hash", v[1], _str(v[2]), ">"]
    elif k == "delim":
        o += ["<delim", _str((v[1],)), ">"]
    elif k == "number":
        o += ["<number", v[1], v[2], ">"]
    elif k == "percentage":
        o += ["<percentage", v[1], ">"]
    elif k == "dimension":
        o += ["<dimension", v[1], v[2], _str(v[3]), ">"]
    elif k == "block":
        o += ["<block", v[1]]
        for x in v[2]:
            _show(x, o)
        o.append(">")
    elif k == "function":
        o += ["<function", _str(v[1])]
        for x in v[2]:
            _show(x, o)
        o.append(">")
    elif k == "at-rule":
        o += ["<at-rule", _str(v[1])]
        for x in v[2]:
            _show(x, o)
        if v[3] is not None:
            o.append("|")
            _show(v[3], o)
        o.append(">")
    elif k == "rule":
        o.append("<rule")
        for x in v[1]:
            _show(x, o)
        o.append("|")
        _show(v[2], o)
        o.append(">")
    elif k == "declaration":
        o += ["<declaration", _str(v[1]), "!" if v[3] else "-"]
        for x in v[2]:
            _show(x, o)
        o.append(">")
    elif k == "list":
        o.append("<list")
        for x in v[1]:
            _show(x, o)
        o.append(">")
    else:
        o.append(k)
