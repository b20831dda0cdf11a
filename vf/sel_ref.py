"""Reference for selectors: parse into an AST and match against a small DOM. An invalid selector matches nothing."""
from . import css_ref as C

WS = " \t\n\f\r"


def low(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


class Invalid(Exception):
    pass


class P:
    def __init__(self, vals, ns):
        self.v, self.i, self.ns = vals, 0, ns

    def peek(self, k=0):
        return self.v[self.i + k] if self.i + k < len(self.v) else ("eof",)

    def delim(self, c, k=0):
        t = self.peek(k)
        return t[0] == "delim" and t[1] == ord(c)

    def ws(self):
        b = False
        while self.peek() == ("ws",):
            self.i += 1
            b = True
        return b

    def done(self):
        return self.i >= len(self.v)

    # (prefix or None, name); name "*" only when star
    def wq(self, star):
        i = self.i
        pre, n = None, 0
        if self.peek()[0] == "ident" and self.delim("|", 1):
            pre, n = text(self.peek()[1]), 2
        elif self.delim("*") and self.delim("|", 1):
            pre, n = ("any",), 2
        elif self.delim("|"):
            pre, n = "", 1
        nx = self.peek(n)
        if nx[0] == "ident" or (star and nx[0] == "delim" and nx[1] == ord("*")):
            if pre not in (None, "", ("any",)) and pre not in self.ns:
                raise Invalid
            self.i += n + 1
            return pre, (text(nx[1]) if nx[0] == "ident" else None)
        t = self.peek()
        if t[0] == "ident":
            self.i += 1
            return None, text(t[1])
        if star and self.delim("*"):
            self.i += 1
            return None, None
        self.i = i
        return None

    def attr(self):
        b = self.peek()
        self.i += 1
        p = P(list(b[2]), self.ns)
        p.ws()
        n = p.wq(False)
        if n is None:
            raise Invalid
        p.ws()
        if p.done():
            return ("attr", n, None, None, None)
        op = None
        if p.delim("="):
            op, p.i = "=", p.i + 1
        else:
            for c in "~|^$*":
                if p.delim(c) and p.delim("=", 1):
                    op, p.i = c, p.i + 2
                    break
        if op is None:
            raise Invalid
        p.ws()
        t = p.peek()
        if t[0] not in ("ident", "string"):
            raise Invalid
        p.i += 1
        p.ws()
        mod = None
        if not p.done():
            m = p.peek()
            if m[0] == "ident" and low(text(m[1])) in ("i", "s"):
                mod = low(text(m[1]))
                p.i += 1
                p.ws()
            if not p.done():
                raise Invalid
        return ("attr", n, op, text(t[1]), mod)

    def compound(self):
        out = []
        n = self.wq(True)
        if n is not None:
            out.append(("type", n))
        pe = False
        while True:
            t = self.peek()
            if t[0] == "hash" and not pe:
                if t[1] != "id":
                    raise Invalid
                out.append(("id", text(t[2])))
                self.i += 1
            elif self.delim(".") and not pe:
                if self.peek(1)[0] != "ident":
                    raise Invalid
                out.append(("class", text(self.peek(1)[1])))
                self.i += 2
            elif t[0] == "block" and t[1] == "[" and not pe:
                out.append(self.attr())
            elif t == (":",):
                k = 1
                if self.peek(1) == (":",):
                    k = 2
                a = self.peek(k)
                if a[0] not in ("ident", "function"):
                    raise Invalid
                name = low(text(a[1]))
                if k == 2 or (a[0] == "ident" and name in ("before", "after", "first-line", "first-letter")):
                    pe = True
                    out.append(("never",))
                elif a[0] == "ident" and name == "root":
                    out.append(("root",))
                else:
                    out.append(("never",))
                self.i += k + 1
            else:
                break
        return out

    def complex(self):
        c = self.compound()
        if not c:
            raise Invalid
        seq = [c]
        while True:
            w = self.ws()
            comb = None
            for x in ">+~":
                if self.delim(x):
                    comb, self.i = x, self.i + 1
                    break
            else:
                if self.delim("|") and self.delim("|", 1):
                    comb, self.i = "|", self.i + 2
            if comb is None:
                if self.done() or self.peek() == (",",):
                    return seq
                if not w:
                    raise Invalid
                comb = " "
            self.ws()
            c = self.compound()
            if not c:
                raise Invalid
            seq += [comb, c]

    def list(self):
        out = []
        while True:
            self.ws()
            out.append(self.complex())
            if self.peek() == (",",):
                self.i += 1
                continue
            if not self.done():
                raise Invalid
            return out


def text(t):
    return t if isinstance(t, str) else "".join(map(chr, t))


def parse(s, ns):
    v = C.Parser(C.tokens([ord(c) for c in s])).parse_list_of_component_values()
    try:
        return P(list(v[1]), ns).list()
    except Invalid:
        return None


def hx(s):
    return ".".join("%x" % ord(c) for c in s)


class Grammar:
    """The productions of the selector grammar over component values; each returns a dump of its parts or raises Invalid."""
    LEGACY = ("before", "after", "first-line", "first-letter")

    def __init__(self, vals, ns):
        self.p, self.ns = P(vals, ns), ns

    def combinator(self):
        p = self.p
        for x in ">+~":
            if p.delim(x):
                p.i += 1
                return "c" + x
        if p.delim("|") and p.delim("|", 1):
            p.i += 2
            return "c|"
        raise Invalid

    def ns_prefix(self):
        p = self.p
        if p.peek()[0] == "ident" and p.delim("|", 1):
            s = text(p.peek()[1])
            if s not in self.ns:
                raise Invalid
            p.i += 2
        elif p.delim("*") and p.delim("|", 1):
            s, p.i = "*", p.i + 2
        elif p.delim("|"):
            s, p.i = "", p.i + 1
        else:
            raise Invalid
        return "p%s;" % hx(s)

    def name(self, star):
        n = self.p.wq(star)
        if n is None:
            raise Invalid
        pre = "-" if n[0] is None else "p%s;" % hx("*" if n[0] == ("any",) else n[0])
        return pre, n[1]

    def wq_name(self):
        return "w%s%s;" % (lambda a: (a[0], hx(a[1])))(self.name(False))

    def id_selector(self):
        t = self.p.peek()
        if t[0] != "hash" or t[1] != "id":
            raise Invalid
        self.p.i += 1
        return "#%s;" % hx(text(t[2]))

    def class_selector(self):
        if not self.p.delim(".") or self.p.peek(1)[0] != "ident":
            raise Invalid
        t = self.p.peek(1)
        self.p.i += 2
        return ".%s;" % hx(text(t[1]))

    def attr_matcher(self):
        p = self.p
        if p.delim("="):
            p.i += 1
            return "m="
        for c in "~|^$*":
            if p.delim(c) and p.delim("=", 1):
                p.i += 2
                return "m" + c
        raise Invalid

    def attr_modifier(self):
        t = self.p.peek()
        if t[0] == "ident" and low(text(t[1])) in ("i", "s"):
            self.p.i += 1
            return "d" + low(text(t[1]))
        raise Invalid

    def pseudo(self, k):
        a = self.p.peek(k)
        if a[0] == "ident":
            o = "i%s;" % hx(text(a[1]))
        elif a[0] == "function":
            o = "f%s/%d;" % (hx(text(a[1])), len(a[2]))
        else:
            raise Invalid
        self.p.i += k + 1
        return o

    def pseudo_class_selector(self):
        p = self.p
        a = p.peek(1)
        if p.peek() != (":",) or a[0] == "ident" and low(text(a[1])) in self.LEGACY:
            raise Invalid
        return self.pseudo(1)

    def pseudo_element_selector(self):
        p = self.p
        if p.peek() != (":",):
            raise Invalid
        if p.peek(1) == (":",):
            return ":" + self.pseudo(2)
        a = p.peek(1)
        if a[0] == "ident" and low(text(a[1])) in self.LEGACY:
            return ":" + self.pseudo(1)
        raise Invalid

    def attribute_selector(self):
        t = self.p.peek()
        if t[0] != "block" or t[1] != "[":
            raise Invalid
        _, (pre, name), op, val, mod = self.p.attr()
        pre = "-" if pre is None else "p%s;" % hx("*" if pre == ("any",) else pre)
        return "[%s%s;%s%s;%s]" % (pre, hx(name), op or "0", hx(val or ""), mod or "0")

    def first(self, *alts):
        i = self.p.i
        for a in alts:
            try:
                return a()
            except Invalid:
                self.p.i = i
        raise Invalid

    def subclass_selector(self):
        return "s" + self.first(self.id_selector, self.class_selector, self.attribute_selector, self.pseudo_class_selector)

    def type_selector(self):
        pre, n = self.name(True)
        return "u" + pre if n is None else "tw%s%s;" % (pre, hx(n))

    def simple_selector(self):
        return self.first(self.type_selector, self.subclass_selector)

    def star(self, f):
        o = ""
        while True:
            try:
                o += self.first(f)
            except Invalid:
                return o

    def compound_selector(self):
        o = ""
        try:
            o = self.first(self.type_selector)
        except Invalid:
            pass
        o += self.star(self.subclass_selector)
        o += self.star(lambda: self.pseudo_element_selector() + self.star(self.pseudo_class_selector))
        if not o:
            raise Invalid
        return "(%s)" % o

    def complex_inner(self):
        o = self.compound_selector()
        while True:
            i = self.p.i
            try:
                w = self.p.ws()
                try:
                    c = self.first(self.combinator)
                except Invalid:
                    if not w:
                        raise
                    c = "c "
                self.p.ws()
                o += c + self.compound_selector()
            except Invalid:
                self.p.i = i
                return o

    def complex_selector(self):
        return "<%s>" % self.complex_inner()

    def relative_selector(self):
        c = ""
        try:
            c = self.first(self.combinator)
            self.p.ws()
        except Invalid:
            pass
        return "<%s%s>" % (c, self.complex_inner())

    def many(self, f):
        o = f()
        while True:
            i = self.p.i
            self.p.ws()
            if self.p.peek() != (",",):
                self.p.i = i
                return "{%s}" % o
            self.p.i += 1
            self.p.ws()
            o += f()

    def relative_selector_list(self):
        return self.many(self.relative_selector)

    def simple_selector_list(self):
        return self.many(self.simple_selector)

    def compound_selector_list(self):
        return self.many(self.compound_selector)

    def complex_selector_list(self):
        return self.many(self.complex_selector)

    selector_list = complex_selector_list


def whole(vals, ns, production):
    g = Grammar(list(vals), ns)
    g.p.ws()
    try:
        o = getattr(g, production)()
    except Invalid:
        return "fail"
    g.p.ws()
    return o if g.p.done() else "fail"


def grammar(s, ns, production, comma):
    v = list(C.Parser(C.tokens([ord(c) for c in s])).parse_list_of_component_values()[1])
    if not comma:
        return whole(v, ns, production)
    parts = [[]]
    for t in v:
        if t == (",",):
            parts.append([])
        else:
            parts[-1].append(t)
    return "".join(whole(p, ns, production) + " " for p in parts)


class M:
    """doc: {"type": "H"|"X", "mode": "N"|"L"|"Q", "nodes": [node]}; node: dict(kind, parent, ns, name, attrs[(ns,prefix,name,value)])."""

    def __init__(self, doc, ns, exact=True):
        self.d, self.n, self.ns, self.exact = doc, doc["nodes"], ns, exact
        self.html = doc["type"] == "H"
        self.quirks = doc["mode"] == "Q"
        self.ch = {}
        for i, x in enumerate(self.n):
            self.ch.setdefault(x["parent"], []).append(i)

    def same(self, a, b):
        return low(a) == low(b) if self.html else a == b

    def simple(self, s, i):
        e = self.n[i]
        k = s[0]
        if e["kind"] != "E" or k == "never":
            return False
        if k == "root":
            return e["ns"] == "http://www.w3.org/1999/xhtml" and e["name"] == "html"
        if k == "type":
            pre, name = s[1]
            if pre is None:
                if "" in self.ns and self.ns[""] != e["ns"]:
                    return False
            elif pre == "":
                if e["ns"]:
                    return False
            elif pre != ("any",) and self.ns[pre] != e["ns"]:
                return False
            return name is None or self.same(name, e["name"])
        if k in ("id", "class"):
            for _, pre, name, val in e["attrs"]:
                if pre or not self.same(name, k):
                    continue
                vs = [val] if k == "id" else words(val)
                if any((low(v) == low(s[1])) if self.quirks else v == s[1] for v in vs):
                    return True
            return False
        _, (pre, name), op, want, mod = s
        for ns, _, an, val in e["attrs"]:
            if pre in (None, ""):
                if ns:
                    continue
            elif pre != ("any",) and self.ns[pre] != ns:
                continue
            if not self.same(an, name):
                continue
            if op is None:
                return True
            w = want
            if mod == "i":
                val, w = low(val), low(w)
            if (op == "=" and val == w or op == "~" and w in words(val) or op == "|" and (val == w and self.exact or val.startswith(w + "-"))
                    or w and (op == "^" and val.startswith(w) or op == "$" and val.endswith(w) or op == "*" and w in val)):
                return True
        return False

    def sibs(self, i):
        p = self.n[i]["parent"]
        s = self.ch[p]
        return [x for x in reversed(s[:s.index(i)]) if self.n[x]["kind"] == "E"]

    def complex(self, seq, i):
        if not all(self.simple(s, i) for s in seq[-1]):
            return False
        if len(seq) == 1:
            return True
        c, rest = seq[-2], seq[:-2]
        p = self.n[i]["parent"]
        if c == ">":
            return p is not None and self.complex(rest, p)
        if c == " ":
            while p is not None:
                if self.complex(rest, p):
                    return True
                p = self.n[p]["parent"]
            return False
        if p is None or c == "|":
            return False
        s = self.sibs(i)
        if c == "+":
            return bool(s) and self.complex(rest, s[0])
        return any(self.complex(rest, x) for x in s)

    def query(self, sel, start):
        if sel is None:
            return []
        out = []
        for i in range(len(self.n)):
            if start is not None:
                p = self.n[i]["parent"]
                while p is not None and p != start:
                    p = self.n[p]["parent"]
                if p != start or p is None:
                    continue
            if any(self.complex(s, i) for s in sel):
                out.append(i)
        return out


def words(v):
    for c in "\t\n\f\r":
        v = v.replace(c, " ")
    return [x for x in v.split(" ") if x]
