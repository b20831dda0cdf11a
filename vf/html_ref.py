"""Reference HTML parser: tokenization and tree construction written from the HTML Standard (2020), scripting disabled.
A template's contents are kept as the children of the template element. Trees are rendered by dump()."""
import bisect
from html.entities import html5 as _ENT

HTML, MATHML, SVG, XLINK, XML, XMLNS = "html", "math", "svg", "xlink", "xml", "xmlns"
ENT = _ENT
_PREFIX = set()
for _k in ENT:
    for _i in range(1, len(_k) + 1):
        _PREFIX.add(_k[:_i])
C1 = {0x80: 0x20AC, 0x82: 0x201A, 0x83: 0x0192, 0x84: 0x201E, 0x85: 0x2026, 0x86: 0x2020, 0x87: 0x2021, 0x88: 0x02C6, 0x89: 0x2030, 0x8A: 0x0160, 0x8B: 0x2039, 0x8C: 0x0152, 0x8E: 0x017D,
      0x91: 0x2018, 0x92: 0x2019, 0x93: 0x201C, 0x94: 0x201D, 0x95: 0x2022, 0x96: 0x2013, 0x97: 0x2014, 0x98: 0x02DC, 0x99: 0x2122, 0x9A: 0x0161, 0x9B: 0x203A, 0x9C: 0x0153, 0x9E: 0x017E, 0x9F: 0x0178}
WS = "\t\n\f "
REP = "\ufffd"
ALPHA = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = set("0123456789")
HEX = set("0123456789abcdefABCDEF")


def alow(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


class Node:
    __slots__ = ("kind", "name", "ns", "attrs", "ch", "parent", "data", "pub", "sys", "hook")

    def __init__(self, kind, name="", ns="", data=""):
        self.kind, self.name, self.ns, self.data = kind, name, ns, data
        self.attrs, self.ch, self.parent = [], [], None   # attrs: [ns, prefix, local, value]
        self.pub = self.sys = ""

    def remove(self):
        if self.parent is not None:
            p = self.parent.ch
            for i, x in enumerate(p):
                if x is self:
                    del p[i]
                    break
            self.parent = None

    def append(self, n):
        n.remove()
        n.parent = self
        self.ch.append(n)

    def insert(self, i, n):
        n.parent = self
        self.ch.insert(i, n)

    def index(self, n):
        for i, x in enumerate(self.ch):
            if x is n:
                return i
        raise ValueError

    def attr(self, name):
        for a in self.attrs:
            if not a[0] and a[2] == name:
                return a[3]
        return None


class Tag:
    __slots__ = ("end", "name", "attrs", "sc", "acked")

    def __init__(self, end, name=""):
        self.end, self.name, self.attrs, self.sc, self.acked = end, name, [], False, False

    def get(self, n):
        for k, v in self.attrs:
            if k == n:
                return v
        return None


class Doctype:
    __slots__ = ("name", "pub", "sys", "quirks")

    def __init__(self):
        self.name = self.pub = self.sys = None
        self.quirks = False


class Tokenizer:
    def __init__(self, text, sink):
        self.s = text.replace("\r\n", "\n").replace("\r", "\n")
        self.i = 0
        self.sink = sink
        self.state = self.data
        self.last_start = None
        self.buf = []

    def run(self):
        while self.state is not None:
            self.state()
        self.flush()
        self.sink.eof()

    # helpers
    def emit(self, c):
        self.buf.append(c)

    def flush(self):
        if self.buf:
            t = "".join(self.buf)
            self.buf = []
            self.sink.chars(t)

    def next(self):
        if self.i < len(self.s):
            c = self.s[self.i]
            self.i += 1
            return c
        self.i += 1
        return None

    def back(self):
        self.i -= 1

    def end(self):
        self.state = None

    def emit_tag(self, t):
        self.flush()
        self.state = self.data
        if not t.end:
            self.last_start = t.name
        seen, out = set(), []
        for k, v in t.attrs:
            if k not in seen:
                seen.add(k)
                out.append((k, "".join(v)))
        t.attrs = out
        self.sink.tag(t, self)

    def emit_comment(self, c):
        self.flush()
        self.sink.comment(c)

    # data-like states
    def data(self):
        s, i = self.s, self.i
        j = i
        n = len(s)
        while j < n and s[j] not in "&<":
            j += 1
        if j > i:
            self.emit(s[i:j])
        self.i = j
        c = self.next()
        if c == "&":
            self.charref(False)
        elif c == "<":
            self.state = self.tag_open
        else:
            self.end()

    def rcdata(self):
        c = self.next()
        if c == "&":
            self.charref(False)
        elif c == "<":
            self.endtag_in(self.rcdata)
        elif c is None:
            self.end()
        else:
            self.emit(REP if c == "\0" else c)

    def rawtext(self):
        c = self.next()
        if c == "<":
            self.endtag_in(self.rawtext)
        elif c is None:
            self.end()
        else:
            self.emit(REP if c == "\0" else c)

    def plaintext(self):
        c = self.next()
        if c is None:
            self.end()
        else:
            self.emit(REP if c == "\0" else c)

    def endtag_in(self, back):
        """After '<' in RCDATA, RAWTEXT, script data: an appropriate end tag or text."""
        if not self.try_end(back):
            self.emit("<")
            self.state = back

    def try_end(self, back):
        s = self.s
        if self.i < len(s) and s[self.i] == "/":
            j = self.i + 1
            while j < len(s) and s[j] in ALPHA:
                j += 1
            name = alow(s[self.i + 1:j])
            if name and name == self.last_start and j < len(s) and s[j] in "\t\n\f />":
                t = Tag(True, name)
                self.i = j + 1
                self.after_name(t, s[j])
                return True
        return False

    def after_name(self, t, c):
        if c == ">":
            self.emit_tag(t)
        else:
            self.t = t
            self.state = self.self_closing if c == "/" else self.before_attr

    def script(self):
        c = self.next()
        if c is None:
            self.end()
        elif c == "<":
            if self.s.startswith("!", self.i):
                self.i += 1
                self.emit("<!")
                self.state = self.script
                # script data escape start
                if self.s.startswith("-", self.i):
                    self.i += 1
                    self.emit("-")
                    if self.s.startswith("-", self.i):
                        self.i += 1
                        self.emit("-")
                        self.state = self.sesc_dash2
            else:
                self.endtag_in(self.script)
        else:
            self.emit(REP if c == "\0" else c)

    def sesc(self):
        c = self.next()
        if c is None:
            self.end()
        elif c == "-":
            self.emit("-")
            self.state = self.sesc_dash
        elif c == "<":
            self.sesc_lt()
        else:
            self.emit(REP if c == "\0" else c)
            self.state = self.sesc

    def sesc_dash(self):
        c = self.next()
        if c == "-":
            self.emit("-")
            self.state = self.sesc_dash2
        else:
            self.back()
            self.state = self.sesc

    def sesc_dash2(self):
        c = self.next()
        if c == "-":
            self.emit("-")
        elif c == ">":
            self.emit(">")
            self.state = self.script
        else:
            self.back()
            self.state = self.sesc

    def sesc_lt(self):
        s = self.s
        if self.i < len(s) and s[self.i] in ALPHA:
            self.emit("<")
            j = self.i
            while j < len(s) and s[j] in ALPHA:
                j += 1
            self.emit(s[self.i:j])
            name = alow(s[self.i:j])
            self.i = j
            self.state = self.sesc
            if j < len(s) and s[j] in "\t\n\f />":
                self.emit(s[j])
                self.i += 1
                if name == "script":
                    self.state = self.sdbl
        else:
            self.endtag_in(self.sesc)

    def sdbl(self):
        c = self.next()
        if c is None:
            self.end()
        elif c == "-":
            self.emit("-")
            self.state = self.sdbl_dash
        elif c == "<":
            self.emit("<")
            self.sdbl_lt()
        else:
            self.emit(REP if c == "\0" else c)
            self.state = self.sdbl

    def sdbl_dash(self):
        c = self.next()
        if c == "-":
            self.emit("-")
            self.state = self.sdbl_dash2
        else:
            self.back()
            self.state = self.sdbl

    def sdbl_dash2(self):
        c = self.next()
        if c == "-":
            self.emit("-")
        elif c == ">":
            self.emit(">")
            self.state = self.script
        else:
            self.back()
            self.state = self.sdbl

    def sdbl_lt(self):
        s = self.s
        self.state = self.sdbl
        if self.i < len(s) and s[self.i] == "/":
            self.emit("/")
            self.i += 1
            j = self.i
            while j < len(s) and s[j] in ALPHA:
                j += 1
            self.emit(s[self.i:j])
            name = alow(s[self.i:j])
            self.i = j
            if j < len(s) and s[j] in "\t\n\f />":
                self.emit(s[j])
                self.i += 1
                if name == "script":
                    self.state = self.sesc

    # tags
    def tag_open(self):
        c = self.next()
        if c is None:
            self.emit("<")
            self.end()
        elif c == "!":
            self.state = self.markup
        elif c == "/":
            self.state = self.end_tag_open
        elif c in ALPHA:
            self.t = Tag(False)
            self.back()
            self.state = self.tag_name
        elif c == "?":
            self.back()
            self.bogus("")
        else:
            self.emit("<")
            self.back()
            self.state = self.data

    def end_tag_open(self):
        c = self.next()
        if c is None:
            self.emit("</")
            self.end()
        elif c in ALPHA:
            self.t = Tag(True)
            self.back()
            self.state = self.tag_name
        elif c == ">":
            self.state = self.data
        else:
            self.back()
            self.bogus("")

    def tag_name(self):
        name = []
        while True:
            c = self.next()
            if c is None:
                return self.end()
            if c in "\t\n\f />":
                self.t.name = alow("".join(name))
                return self.after_name(self.t, c)
            name.append(REP if c == "\0" else c)

    def before_attr(self):
        while True:
            c = self.next()
            if c is not None and c in WS:
                continue
            break
        if c is None or c in "/>":
            self.back()
            self.state = self.after_attr_name
        elif c == "=":
            self.t.attrs.append(["=", []])
            self.state = self.attr_name
        else:
            self.t.attrs.append(["", []])
            self.back()
            self.state = self.attr_name

    def attr_name(self):
        n = [self.t.attrs[-1][0]]
        while True:
            c = self.next()
            if c is None or c in "\t\n\f />":
                self.back()
                self.state = self.after_attr_name
                break
            if c == "=":
                self.state = self.before_value
                break
            n.append(REP if c == "\0" else c)
        self.t.attrs[-1][0] = alow("".join(n))

    def after_attr_name(self):
        while True:
            c = self.next()
            if c is not None and c in WS:
                continue
            break
        if c is None:
            self.end()
        elif c == "/":
            self.state = self.self_closing
        elif c == "=":
            self.state = self.before_value
        elif c == ">":
            self.emit_tag(self.t)
        else:
            self.t.attrs.append(["", []])
            self.back()
            self.state = self.attr_name

    def before_value(self):
        while True:
            c = self.next()
            if c is not None and c in WS:
                continue
            break
        if c == '"' or c == "'":
            self.quoted(c)
        elif c == ">":
            self.emit_tag(self.t)
        else:
            self.back()
            self.unquoted()

    def quoted(self, q):
        v = self.t.attrs[-1][1]
        while True:
            c = self.next()
            if c is None:
                return self.end()
            if c == q:
                break
            if c == "&":
                self.charref(True, v)
            else:
                v.append(REP if c == "\0" else c)
        c = self.next()
        if c is None:
            self.end()
        elif c in WS:
            self.state = self.before_attr
        elif c == "/":
            self.state = self.self_closing
        elif c == ">":
            self.emit_tag(self.t)
        else:
            self.back()
            self.state = self.before_attr

    def unquoted(self):
        v = self.t.attrs[-1][1]
        while True:
            c = self.next()
            if c is None:
                return self.end()
            if c in WS:
                self.state = self.before_attr
                return
            if c == ">":
                return self.emit_tag(self.t)
            if c == "&":
                self.charref(True, v)
            else:
                v.append(REP if c == "\0" else c)

    def self_closing(self):
        c = self.next()
        if c is None:
            self.end()
        elif c == ">":
            self.t.sc = True
            self.emit_tag(self.t)
        else:
            self.back()
            self.state = self.before_attr

    # comments
    def bogus(self, start):
        j = self.s.find(">", self.i)
        e = len(self.s) if j < 0 else j
        self.emit_comment(start + self.s[self.i:e].replace("\0", REP))
        if j < 0:
            self.i = e
            self.end()
        else:
            self.i = j + 1
            self.state = self.data

    def markup(self):
        s = self.s
        if s.startswith("--", self.i):
            self.i += 2
            self.comment()
        elif alow(s[self.i:self.i + 7]) == "doctype":
            self.i += 7
            self.state = self.doctype
        elif s.startswith("[CDATA[", self.i):
            self.i += 7
            if self.sink.cdata_allowed(self):
                self.state = self.cdata
            else:
                self.bogus("[CDATA[")
        else:
            self.bogus("")

    def cdata(self):
        j = self.s.find("]]>", self.i)
        e = len(self.s) if j < 0 else j
        self.emit(self.s[self.i:e])
        if j < 0:
            self.i = e
            self.end()
        else:
            self.i = j + 3
            self.state = self.data

    def comment(self):
        s, n = self.s, len(self.s)
        d = []
        st = "start"
        while True:
            c = self.next()
            if st == "start":
                if c == "-":
                    st = "startdash"
                elif c == ">":
                    break
                else:
                    self.back()
                    st = "c"
            elif st == "startdash":
                if c == "-":
                    st = "end"
                elif c == ">" or c is None:
                    break
                else:
                    d.append("-")
                    self.back()
                    st = "c"
            elif st == "c":
                if c == "<":
                    d.append(c)
                    st = "lt"
                elif c == "-":
                    st = "enddash"
                elif c is None:
                    break
                else:
                    d.append(REP if c == "\0" else c)
            elif st == "lt":
                if c == "!":
                    d.append(c)
                    st = "ltbang"
                elif c == "<":
                    d.append(c)
                else:
                    self.back()
                    st = "c"
            elif st == "ltbang":
                if c == "-":
                    st = "ltbangdash"
                else:
                    self.back()
                    st = "c"
            elif st == "ltbangdash":
                if c == "-":
                    st = "ltbangdashdash"
                else:
                    self.back()
                    st = "enddash"
            elif st == "ltbangdashdash":
                self.back()
                st = "end"
            elif st == "enddash":
                if c == "-":
                    st = "end"
                elif c is None:
                    break
                else:
                    d.append("-")
                    self.back()
                    st = "c"
            elif st == "end":
                if c == ">" or c is None:
                    break
                if c == "!":
                    st = "endbang"
                elif c == "-":
                    d.append("-")
                else:
                    d.append("--")
                    self.back()
                    st = "c"
            elif st == "endbang":
                if c == "-":
                    d.append("--!")
                    st = "enddash"
                elif c == ">" or c is None:
                    break
                else:
                    d.append("--!")
                    self.back()
                    st = "c"
        self.emit_comment("".join(d))
        if c is None:
            self.end()
        else:
            self.state = self.data

    # doctype
    def doctype(self):
        d = Doctype()
        self.d = d
        c = self.next()
        if c is None:
            d.quirks = True
        elif c not in WS:
            self.back()
        if c is not None:
            c = self._doctype(d)
        self.flush()
        self.sink.doctype(d)
        if c is None:
            self.end()
        else:
            self.state = self.data

    def _skip(self):
        c = self.next()
        while c is not None and c in WS:
            c = self.next()
        return c

    def _bogus(self):
        c = self.next()
        while c is not None and c != ">":
            c = self.next()
        return c

    def _doctype(self, d):
        c = self._skip()
        if c is None or c == ">":
            d.quirks = True
            return c
        n = []
        while c is not None and c not in "\t\n\f >":
            n.append(REP if c == "\0" else c)
            c = self.next()
        d.name = alow("".join(n))
        if c is None:
            d.quirks = True
            return c
        if c == ">":
            return c
        c = self._skip()
        if c is None:
            d.quirks = True
            return c
        if c == ">":
            return c
        self.back()
        kw = alow(self.s[self.i:self.i + 6])
        if kw not in ("public", "system"):
            d.quirks = True
            return self._bogus()
        self.i += 6
        c = self._skip()
        if c is None or c == ">":
            d.quirks = True
            return c
        if c not in "\"'":
            d.quirks = True
            self.back()
            return self._bogus()
        if kw == "public":
            v, c = self._ident(c, d, "pub")
            if c is None or v:
                d.quirks = True
                return c
            c = self._skip()
            if c is None:
                d.quirks = True
                return c
            if c == ">":
                return c
            if c not in "\"'":
                d.quirks = True
                self.back()
                return self._bogus()
        v, c = self._ident(c, d, "sys")
        if c is None or v:
            d.quirks = True
            return c
        c = self._skip()
        if c is None:
            d.quirks = True
            return c
        if c == ">":
            return c
        self.back()
        return self._bogus()

    def _ident(self, q, d, field):
        """-> (aborted, last character)"""
        v = []
        while True:
            c = self.next()
            if c == q:
                setattr(d, field, "".join(v))
                return False, c
            if c is None or c == ">":
                setattr(d, field, "".join(v))
                return True, c
            v.append(REP if c == "\0" else c)

    # character references
    def charref(self, in_attr, out=None):
        put = self.emit if out is None else out.append
        s = self.s
        i = self.i
        if i < len(s) and (s[i] in ALPHA or s[i] in DIGIT):
            j, best = i, None
            while j < len(s) and s[i:j + 1] in _PREFIX:
                j += 1
                if s[i:j] in ENT:
                    best = j
            if best is not None:
                name = s[i:best]
                if in_attr and not name.endswith(";") and best < len(s) and (s[best] == "=" or s[best] in ALPHA or s[best] in DIGIT):
                    put("&" + name)
                else:
                    put(ENT[name])
                self.i = best
                return
            put("&")
            # ambiguous ampersand state: alphanumerics are plain text
            return
        if i < len(s) and s[i] == "#":
            j = i + 1
            hexa = j < len(s) and s[j] in "xX"
            if hexa:
                j += 1
            digs = HEX if hexa else DIGIT
            k = j
            while k < len(s) and s[k] in digs:
                k += 1
            if k == j:
                put("&" + s[i:j])
                self.i = j
                return
            v = int(s[j:k], 16 if hexa else 10)
            if k < len(s) and s[k] == ";":
                k += 1
            self.i = k
            if v == 0 or v > 0x10FFFF or 0xD800 <= v <= 0xDFFF:
                v = 0xFFFD
            else:
                v = C1.get(v, v)
            put(chr(v))
            return
        put("&")


SPECIAL = set("""address applet area article aside base basefont bgsound blockquote body br button caption center col colgroup dd details dir div dl dt embed fieldset figcaption figure footer form frame frameset
h1 h2 h3 h4 h5 h6 head header hgroup hr html iframe img input keygen li link listing main marquee menu meta nav noembed noframes noscript object ol p param plaintext pre script section select source style summary
table tbody td template textarea tfoot th thead title tr track ul wbr xmp""".split())
SPECIAL_M = {"mi", "mo", "mn", "ms", "mtext", "annotation-xml"}
SPECIAL_S = {"foreignObject", "desc", "title"}
SCOPE = {"applet", "caption", "html", "table", "td", "th", "marquee", "object", "template"}
HEADINGS = {"h1", "h2", "h3", "h4", "h5", "h6"}
FORMATTING = {"a", "b", "big", "code", "em", "font", "i", "nobr", "s", "small", "strike", "strong", "tt", "u"}
IMPLIED = {"dd", "dt", "li", "optgroup", "option", "p", "rb", "rp", "rt", "rtc"}
IMPLIED_ALL = IMPLIED | {"caption", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"}
SVG_TAGS = {x.lower(): x for x in """altGlyph altGlyphDef altGlyphItem animateColor animateMotion animateTransform clipPath feBlend feColorMatrix feComponentTransfer feComposite feConvolveMatrix feDiffuseLighting
feDisplacementMap feDistantLight feDropShadow feFlood feFuncA feFuncB feFuncG feFuncR feGaussianBlur feImage feMerge feMergeNode feMorphology feOffset fePointLight feSpecularLighting feSpotLight feTile
feTurbulence foreignObject glyphRef linearGradient radialGradient textPath""".split()}
SVG_ATTRS = {x.lower(): x for x in """attributeName attributeType baseFrequency baseProfile calcMode clipPathUnits diffuseConstant edgeMode filterUnits glyphRef gradientTransform gradientUnits kernelMatrix kernelUnitLength
keyPoints keySplines keyTimes lengthAdjust limitingConeAngle markerHeight markerUnits markerWidth maskContentUnits maskUnits numOctaves pathLength patternContentUnits patternTransform patternUnits pointsAtX pointsAtY
pointsAtZ preserveAlpha preserveAspectRatio primitiveUnits refX refY repeatCount repeatDur requiredExtensions requiredFeatures specularConstant specularExponent spreadMethod startOffset stdDeviation stitchTiles
surfaceScale systemLanguage tableValues targetX targetY textLength viewBox viewTarget xChannelSelector yChannelSelector zoomAndPan""".split()}
FOREIGN_ATTRS = {"xlink:actuate": (XLINK, "xlink", "actuate"), "xlink:arcrole": (XLINK, "xlink", "arcrole"), "xlink:href": (XLINK, "xlink", "href"), "xlink:role": (XLINK, "xlink", "role"), "xlink:show": (XLINK, "xlink", "show"),
                 "xlink:title": (XLINK, "xlink", "title"), "xlink:type": (XLINK, "xlink", "type"), "xml:lang": (XML, "xml", "lang"), "xml:space": (XML, "xml", "space"), "xmlns": (XMLNS, "", "xmlns"), "xmlns:xlink": (XMLNS, "xmlns", "xlink")}
BREAKOUT = set("""b big blockquote body br center code dd div dl dt em embed h1 h2 h3 h4 h5 h6 head hr i img li listing menu meta nobr ol p pre ruby s small span strong strike sub sup table tt u ul var""".split())
Q_PUB_EXACT = {"-//w3o//dtd w3 html strict 3.0//en//", "-/w3c/dtd html 4.0 transitional/en", "html"}
Q_PUB_PREFIX = tuple(x.strip().lower() for x in """+//Silmaril//dtd html Pro v0r11 19970101//
-//AS//DTD HTML 3.0 asWedit + extensions//
-//AdvaSoft Ltd//DTD HTML 3.0 asWedit + extensions//
-//IETF//DTD HTML 2.0 Level 1//
-//IETF//DTD HTML 2.0 Level 2//
-//IETF//DTD HTML 2.0 Strict Level 1//
-//IETF//DTD HTML 2.0 Strict Level 2//
-//IETF//DTD HTML 2.0 Strict//
-//IETF//DTD HTML 2.0//
-//IETF//DTD HTML 2.1E//
-//IETF//DTD HTML 3.0//
-//IETF//DTD HTML 3.2 Final//
-//IETF//DTD HTML 3.2//
-//IETF//DTD HTML 3//
-//IETF//DTD HTML Level 0//
-//IETF//DTD HTML Level 1//
-//IETF//DTD HTML Level 2//
-//IETF//DTD HTML Level 3//
-//IETF//DTD HTML Strict Level 0//
-//IETF//DTD HTML Strict Level 1//
-//IETF//DTD HTML Strict Level 2//
-//IETF//DTD HTML Strict Level 3//
-//IETF//DTD HTML Strict//
-//IETF//DTD HTML//
-//Metrius//DTD Metrius Presentational//
-//Microsoft//DTD Internet Explorer 2.0 HTML Strict//
-//Microsoft//DTD Internet Explorer 2.0 HTML//
-//Microsoft//DTD Internet Explorer 2.0 Tables//
-//Microsoft//DTD Internet Explorer 3.0 HTML Strict//
-//Microsoft//DTD Internet Explorer 3.0 HTML//
-//Microsoft//DTD Internet Explorer 3.0 Tables//
-//Netscape Comm. Corp.//DTD HTML//
-//Netscape Comm. Corp.//DTD Strict HTML//
-//O'Reilly and Associates//DTD HTML 2.0//
-//O'Reilly and Associates//DTD HTML Extended 1.0//
-//O'Reilly and Associates//DTD HTML Extended Relaxed 1.0//
-//SQ//DTD HTML 2.0 HoTMetaL + extensions//
-//SoftQuad Software//DTD HoTMetaL PRO 6.0::19990601::extensions to HTML 4.0//
-//SoftQuad//DTD HoTMetaL PRO 4.0::19971010::extensions to HTML 4.0//
-//Spyglass//DTD HTML 2.0 Extended//
-//Sun Microsystems Corp.//DTD HotJava HTML//
-//Sun Microsystems Corp.//DTD HotJava Strict HTML//
-//W3C//DTD HTML 3 1995-03-24//
-//W3C//DTD HTML 3.2 Draft//
-//W3C//DTD HTML 3.2 Final//
-//W3C//DTD HTML 3.2//
-//W3C//DTD HTML 3.2S Draft//
-//W3C//DTD HTML 4.0 Frameset//
-//W3C//DTD HTML 4.0 Transitional//
-//W3C//DTD HTML Experimental 19960712//
-//W3C//DTD HTML Experimental 970421//
-//W3C//DTD W3 HTML//
-//W3O//DTD W3 HTML 3.0//
-//WebTechs//DTD Mozilla HTML 2.0//
-//WebTechs//DTD Mozilla HTML//""".split("\n"))


class Builder:
    def __init__(self, spec=True):
        # spec=False: the two documented differences of the library. It follows the 2020 text of the standard,
        # in which </p> does not break out of foreign content, and its own tests require CDATA sections
        # to be recognised in HTML content and to be comments in foreign content.
        self.spec = spec
        self.on_meta = None
        self.doc = Node("doc")
        self.stack = []
        self.fmt = []            # elements or None (marker); parallel tokens kept for recreation
        self.tok = {}            # id(element) -> tag
        self.mode = self.initial
        self.orig = None
        self.tmodes = []
        self.head = self.form = None
        self.frameset_ok = True
        self.foster = False
        self.quirks = "N"
        self.skip_lf = False
        self.pending = []
        self.tk = None
        self.encoding = None

    # stack helpers
    @property
    def cur(self):
        return self.stack[-1]

    def ishtml(self, n, *names):
        return n.ns == HTML and n.name in names

    def scope(self, names, extra=(), base=SCOPE, stop_foreign=True):
        for n in reversed(self.stack):
            if n.ns == HTML:
                if n.name in names:
                    return True
                if n.name in base or n.name in extra:
                    return False
            elif stop_foreign and ((n.ns == MATHML and n.name in SPECIAL_M) or (n.ns == SVG and n.name in SPECIAL_S)):
                return False
        return False

    def in_scope(self, *names):
        return self.scope(names)

    def node_in_scope(self, node):
        for n in reversed(self.stack):
            if n is node:
                return True
            if n.ns == HTML and n.name in SCOPE or n.ns == MATHML and n.name in SPECIAL_M or n.ns == SVG and n.name in SPECIAL_S:
                return False
        return False

    def button_scope(self, *names):
        return self.scope(names, ("button",))

    def list_scope(self, *names):
        return self.scope(names, ("ol", "ul"))

    def table_scope(self, *names):
        return self.scope(names, (), {"html", "table", "template"}, False)

    def select_scope(self, *names):
        for n in reversed(self.stack):
            if self.ishtml(n, *names):
                return True
            if not self.ishtml(n, "optgroup", "option"):
                return False
        return False

    def has_template(self):
        return any(self.ishtml(n, "template") for n in self.stack)

    def special(self, n):
        return n.ns == HTML and n.name in SPECIAL or n.ns == MATHML and n.name in SPECIAL_M or n.ns == SVG and n.name in SPECIAL_S

    def pop_until(self, *names):
        while True:
            n = self.stack.pop()
            if self.ishtml(n, *names):
                return

    def implied(self, exc=None, names=IMPLIED):
        while self.cur.ns == HTML and self.cur.name in names and self.cur.name != exc:
            self.stack.pop()

    # insertion
    def place(self, target=None):
        t = target or self.cur
        if self.foster and self.ishtml(t, "table", "tbody", "tfoot", "thead", "tr"):
            lt = ltab = None
            for i in range(len(self.stack) - 1, -1, -1):
                n = self.stack[i]
                if lt is None and self.ishtml(n, "template"):
                    lt = i
                if ltab is None and self.ishtml(n, "table"):
                    ltab = i
            if lt is not None and (ltab is None or lt > ltab):
                return self.stack[lt], None
            if ltab is None:
                return self.stack[0], None
            tab = self.stack[ltab]
            if tab.parent is not None:
                return tab.parent, tab
            return self.stack[ltab - 1], None
        return t, None

    def put(self, n, where=None):
        p, before = where or self.place()
        n.remove()
        if before is None:
            p.append(n)
        else:
            p.insert(p.index(before), n)

    def create(self, tag, ns=HTML):
        e = Node("E", tag.name, ns)
        e.attrs = [["", "", k, v] for k, v in tag.attrs]
        self.tok[id(e)] = (tag, e)
        return e

    def element(self, tag, ns=HTML):
        e = self.create(tag, ns)
        p, before = self.place()
        if not (p.kind == "doc" and any(x.kind == "E" for x in p.ch)):
            self.put(e, (p, before))
        self.stack.append(e)
        return e

    def fake(self, name):
        return self.element(Tag(False, name))

    def text(self, s):
        p, before = self.place()
        if p.kind == "doc":
            return
        i = len(p.ch) if before is None else p.index(before)
        if i and p.ch[i - 1].kind == "T":
            p.ch[i - 1].data += s
        else:
            n = Node("T", data=s)
            p.insert(i, n)

    def add_comment(self, s, parent=None):
        n = Node("C", data=s)
        if parent is not None:
            parent.append(n)
        else:
            self.put(n)

    # active formatting elements
    def push_fmt(self, e):
        same = 0
        for i in range(len(self.fmt) - 1, -1, -1):
            x = self.fmt[i]
            if x is None:
                break
            if x.name == e.name and x.ns == e.ns and sorted(map(tuple, x.attrs)) == sorted(map(tuple, e.attrs)):
                same += 1
                if same == 3:
                    del self.fmt[i]
                    break
        self.fmt.append(e)

    def on_stack(self, e):
        return any(x is e for x in self.stack)

    def reconstruct(self):
        if not self.fmt or self.fmt[-1] is None or self.on_stack(self.fmt[-1]):
            return
        i = len(self.fmt) - 1
        while i > 0 and self.fmt[i - 1] is not None and not self.on_stack(self.fmt[i - 1]):
            i -= 1
        for j in range(i, len(self.fmt)):
            self.fmt[j] = self.element(self.tok[id(self.fmt[j])][0])

    def clear_fmt(self):
        while self.fmt:
            if self.fmt.pop() is None:
                return

    def rm(self, lst, e):
        for i, x in enumerate(lst):
            if x is e:
                del lst[i]
                return

    # tokens
    def foreign(self, kind, tag=None):
        if not self.stack:
            return False
        n = self.cur
        if n.ns == HTML or kind == "eof":
            return False
        start = kind == "tag" and not tag.end
        if n.ns == MATHML and n.name in ("mi", "mo", "mn", "ms", "mtext"):
            if start and tag.name not in ("mglyph", "malignmark") or kind == "chars":
                return False
        if n.ns == MATHML and n.name == "annotation-xml" and start and tag.name == "svg":
            return False
        if self.html_ip(n) and (start or kind == "chars"):
            return False
        return True

    def html_ip(self, n):
        if n.ns == SVG and n.name in ("foreignObject", "desc", "title"):
            return True
        if n.ns == MATHML and n.name == "annotation-xml":
            t, e = self.tok[id(n)]
            v = t.get("encoding")
            return v is not None and alow(v) in ("text/html", "application/xhtml+xml")
        return False

    def math_ip(self, n):
        return n.ns == MATHML and n.name in ("mi", "mo", "mn", "ms", "mtext")

    def cdata_allowed(self, tk):
        tk.flush()
        return bool(self.stack) and (self.cur.ns != HTML) == self.spec

    def chars(self, s):
        # split into whitespace, NUL and other runs
        i = 0
        if self.skip_lf:
            self.skip_lf = False
            if s[0] == "\n":
                i = 1
        cls = lambda c: 0 if c in "\t\n\f\r " else 1 if c == "\0" else 2
        while i < len(s):
            k = cls(s[i])
            j = i + 1
            while j < len(s) and cls(s[j]) == k:
                j += 1
            run = s[i:j]
            if self.foreign("chars"):
                if k == 1:
                    self.text(REP * len(run))
                else:
                    self.text(run)
                    if k == 2:
                        self.frameset_ok = False
            else:
                self.mode("chars", run, k)
            i = j

    def tag(self, t, tk):
        self.tk = tk
        self.skip_lf = False
        if self.foreign("tag", t):
            self.foreign_tag(t)
        else:
            self.mode("end" if t.end else "start", t)

    def comment(self, c):
        self.skip_lf = False
        if self.foreign("comment"):
            self.add_comment(c)
        else:
            self.mode("comment", c)

    def doctype(self, d):
        self.skip_lf = False
        if self.foreign("doctype"):
            return
        self.mode("doctype", d)

    def eof(self):
        self.mode("eof", None)

    def again(self, kind, t, k=None):
        """Reprocess the token in the current mode by the dispatcher's rules."""
        if kind == "chars":
            if self.foreign("chars"):
                self.text(REP * len(t) if k == 1 else t)
                if k == 2:
                    self.frameset_ok = False
            else:
                self.mode("chars", t, k)
        elif kind in ("start", "end"):
            if self.foreign("tag", t):
                self.foreign_tag(t)
            else:
                self.mode(kind, t)
        else:
            self.mode(kind, t)

    def foreign_tag(self, t):
        if not t.end:
            if t.name in BREAKOUT or (t.name == "font" and any(t.get(x) is not None for x in ("color", "face", "size"))):
                self.stack.pop()
                while not (self.cur.ns == HTML or self.math_ip(self.cur) or self.html_ip(self.cur)):
                    self.stack.pop()
                self.again("start", t)
                return
            ns = self.cur.ns
            self.foreign_element(t, ns)
            return
        if t.name == "script" and self.cur.ns == SVG and self.cur.name == "script":
            self.stack.pop()
            return
        if t.name == "br" or t.name == "p" and self.spec:
            # treated as a breakout tag
            while not (self.cur.ns == HTML or self.math_ip(self.cur) or self.html_ip(self.cur)):
                self.stack.pop()
            self.mode("end", t)
            return
        i = len(self.stack) - 1
        while True:
            if i == 0:
                return
            n = self.stack[i]
            if alow(n.name) == t.name:
                del self.stack[i:]
                return
            i -= 1
            if self.stack[i].ns == HTML:
                self.mode("end", t)
                return

    def foreign_element(self, t, ns):
        name = t.name
        if ns == SVG:
            name = SVG_TAGS.get(name, name)
        e = self.create(t, ns)
        e.name = name
        out = []
        for _, _, k, v in e.attrs:
            if ns == MATHML and k == "definitionurl":
                k = "definitionURL"
            if ns == SVG:
                k = SVG_ATTRS.get(k, k)
            if k in FOREIGN_ATTRS:
                a = FOREIGN_ATTRS[k]
                out.append([a[0], a[1], a[2], v])
            else:
                out.append(["", "", k, v])
        e.attrs = out
        self.put(e)
        self.stack.append(e)
        if t.sc:
            self.stack.pop()

    # insertion modes: each is f(kind, token, k)
    def initial(self, kind, t, k=None):
        if kind == "chars" and k == 0:
            return
        if kind == "comment":
            return self.add_comment(t, self.doc)
        if kind == "doctype":
            n = Node("D", t.name or "")
            n.pub, n.sys = t.pub or "", t.sys or ""
            self.doc.append(n)
            p = alow(t.pub) if t.pub is not None else None
            s = alow(t.sys) if t.sys is not None else None
            if (t.quirks or t.name != "html" or p is not None and (p in Q_PUB_EXACT or p.startswith(Q_PUB_PREFIX)) or s == "http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd"
                    or s is None and p is not None and p.startswith(("-//w3c//dtd html 4.01 frameset//", "-//w3c//dtd html 4.01 transitional//"))):
                self.quirks = "Q"
            elif p is not None and (p.startswith(("-//w3c//dtd xhtml 1.0 frameset//", "-//w3c//dtd xhtml 1.0 transitional//")) or s is not None and p.startswith(("-//w3c//dtd html 4.01 frameset//", "-//w3c//dtd html 4.01 transitional//"))):
                self.quirks = "L"
            self.mode = self.before_html
            return
        self.quirks = "Q"
        self.mode = self.before_html
        self.again(kind, t, k)

    def before_html(self, kind, t, k=None):
        if kind == "doctype":
            return
        if kind == "comment":
            return self.add_comment(t, self.doc)
        if kind == "chars" and k == 0:
            return
        if kind == "start" and t.name == "html":
            e = self.create(t)
            self.doc.append(e)
            self.stack.append(e)
            self.mode = self.before_head
            return
        if kind == "end" and t.name not in ("head", "body", "html", "br"):
            return
        e = Node("E", "html", HTML)
        self.tok[id(e)] = (Tag(False, "html"), e)
        self.doc.append(e)
        self.stack.append(e)
        self.mode = self.before_head
        self.again(kind, t, k)

    def before_head(self, kind, t, k=None):
        if kind == "chars" and k == 0 or kind == "doctype":
            return
        if kind == "comment":
            return self.add_comment(t)
        if kind == "start":
            if t.name == "html":
                return self.in_body(kind, t)
            if t.name == "head":
                self.head = self.element(t)
                self.mode = self.in_head
                return
        if kind == "end" and t.name not in ("head", "body", "html", "br"):
            return
        self.head = self.fake("head")
        self.mode = self.in_head
        self.again(kind, t, k)

    def raw(self, t, state):
        self.element(t)
        self.tk.state = state
        self.orig = self.mode
        self.mode = self.text_mode

    def in_head(self, kind, t, k=None):
        if kind == "chars" and k == 0:
            return self.text(t)
        if kind == "comment":
            return self.add_comment(t)
        if kind == "doctype":
            return
        if kind == "start":
            n = t.name
            if n == "html":
                return self.in_body(kind, t)
            if n in ("base", "basefont", "bgsound", "link", "meta"):
                self.element(t)
                self.stack.pop()
                if n == "meta" and self.on_meta:
                    self.on_meta(t)
                return
            if n == "title":
                return self.raw(t, self.tk.rcdata)
            if n in ("noframes", "style"):
                return self.raw(t, self.tk.rawtext)
            if n == "noscript":
                self.element(t)
                self.mode = self.in_head_noscript
                return
            if n == "script":
                return self.raw(t, self.tk.script)
            if n == "template":
                self.element(t)
                self.fmt.append(None)
                self.frameset_ok = False
                self.mode = self.in_template
                self.tmodes.append(self.in_template)
                return
            if n == "head":
                return
        if kind == "end":
            if t.name == "head":
                self.stack.pop()
                self.mode = self.after_head
                return
            if t.name == "template":
                if not self.has_template():
                    return
                self.implied(None, IMPLIED_ALL)
                self.pop_until("template")
                self.clear_fmt()
                self.tmodes.pop()
                self.reset()
                return
            if t.name not in ("body", "html", "br"):
                return
        self.stack.pop()
        self.mode = self.after_head
        self.again(kind, t, k)

    def in_head_noscript(self, kind, t, k=None):
        if kind == "doctype":
            return
        if kind == "start" and t.name == "html":
            return self.in_body(kind, t)
        if kind == "end" and t.name == "noscript":
            self.stack.pop()
            self.mode = self.in_head
            return
        if kind == "chars" and k == 0 or kind == "comment" or kind == "start" and t.name in ("basefont", "bgsound", "link", "meta", "noframes", "style"):
            return self.in_head(kind, t, k)
        if kind == "start" and t.name in ("head", "noscript") or kind == "end" and t.name != "br":
            return
        self.stack.pop()
        self.mode = self.in_head
        self.again(kind, t, k)

    def after_head(self, kind, t, k=None):
        if kind == "chars" and k == 0:
            return self.text(t)
        if kind == "comment":
            return self.add_comment(t)
        if kind == "doctype":
            return
        if kind == "start":
            n = t.name
            if n == "html":
                return self.in_body(kind, t)
            if n == "body":
                self.element(t)
                self.frameset_ok = False
                self.mode = self.in_body
                return
            if n == "frameset":
                self.element(t)
                self.mode = self.in_frameset
                return
            if n in ("base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "template", "title"):
                self.stack.append(self.head)
                self.in_head(kind, t)
                self.rm(self.stack, self.head)
                return
            if n == "head":
                return
        if kind == "end":
            if t.name == "template":
                return self.in_head(kind, t)
            if t.name not in ("body", "html", "br"):
                return
        self.fake("body")
        self.mode = self.in_body
        self.again(kind, t, k)

    def close_p(self):
        self.implied("p")
        self.pop_until("p")

    def p_if(self):
        if self.button_scope("p"):
            self.close_p()

    def in_body(self, kind, t, k=None):
        if kind == "chars":
            if k == 1:
                return
            self.reconstruct()
            self.text(t)
            if k == 2:
                self.frameset_ok = False
            return
        if kind == "comment":
            return self.add_comment(t)
        if kind == "doctype":
            return
        if kind == "eof":
            if self.tmodes:
                return self.in_template(kind, t)
            return self.stop()
        if kind == "start":
            return self.body_start(t)
        return self.body_end(t)

    def stop(self):
        self.stack = []
        self.done = True

    def body_start(self, t):
        n = t.name
        if n == "html":
            if self.has_template():
                return
            e = self.stack[0]
            for a, v in t.attrs:
                if e.attr(a) is None:
                    e.attrs.append(["", "", a, v])
            return
        if n in ("base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "template", "title"):
            return self.in_head("start", t)
        if n == "body":
            if len(self.stack) < 2 or not self.ishtml(self.stack[1], "body") or self.has_template():
                return
            self.frameset_ok = False
            e = self.stack[1]
            for a, v in t.attrs:
                if e.attr(a) is None:
                    e.attrs.append(["", "", a, v])
            return
        if n == "frameset":
            if len(self.stack) < 2 or not self.ishtml(self.stack[1], "body"):
                return
            if not self.frameset_ok:
                return
            self.stack[1].remove()
            del self.stack[1:]
            self.element(t)
            self.mode = self.in_frameset
            return
        if n in ("address", "article", "aside", "blockquote", "center", "details", "dialog", "dir", "div", "dl", "fieldset", "figcaption", "figure", "footer", "header", "hgroup", "main", "menu", "nav", "ol", "p", "section", "summary", "ul"):
            self.p_if()
            self.element(t)
            return
        if n in HEADINGS:
            self.p_if()
            if self.cur.ns == HTML and self.cur.name in HEADINGS:
                self.stack.pop()
            self.element(t)
            return
        if n in ("pre", "listing"):
            self.p_if()
            self.element(t)
            self.skip_lf = True
            self.frameset_ok = False
            return
        if n == "form":
            if self.form is not None and not self.has_template():
                return
            self.p_if()
            e = self.element(t)
            if not self.has_template():
                self.form = e
            return
        if n in ("li", "dd", "dt"):
            self.frameset_ok = False
            names = ("li",) if n == "li" else ("dd", "dt")
            for node in reversed(self.stack):
                if self.ishtml(node, *names):
                    self.implied(node.name)
                    self.pop_until(node.name)
                    break
                if self.special(node) and not self.ishtml(node, "address", "div", "p"):
                    break
            self.p_if()
            self.element(t)
            return
        if n == "plaintext":
            self.p_if()
            self.element(t)
            self.tk.state = self.tk.plaintext
            return
        if n == "button":
            if self.in_scope("button"):
                self.implied()
                self.pop_until("button")
            self.reconstruct()
            self.element(t)
            self.frameset_ok = False
            return
        if n == "a":
            for e in reversed(self.fmt):
                if e is None:
                    break
                if e.name == "a":
                    self.adoption(Tag(True, "a"))
                    self.rm(self.fmt, e)
                    self.rm(self.stack, e)
                    break
            self.reconstruct()
            self.push_fmt(self.element(t))
            return
        if n in FORMATTING and n != "nobr":
            self.reconstruct()
            self.push_fmt(self.element(t))
            return
        if n == "nobr":
            self.reconstruct()
            if self.in_scope("nobr"):
                self.adoption(Tag(True, "nobr"))
                self.reconstruct()
            self.push_fmt(self.element(t))
            return
        if n in ("applet", "marquee", "object"):
            self.reconstruct()
            self.element(t)
            self.fmt.append(None)
            self.frameset_ok = False
            return
        if n == "table":
            if self.quirks != "Q":
                self.p_if()
            self.element(t)
            self.frameset_ok = False
            self.mode = self.in_table
            return
        if n in ("area", "br", "embed", "img", "keygen", "wbr"):
            self.reconstruct()
            self.element(t)
            self.stack.pop()
            self.frameset_ok = False
            return
        if n == "input":
            self.reconstruct()
            self.element(t)
            self.stack.pop()
            if alow(t.get("type") or "") != "hidden":
                self.frameset_ok = False
            return
        if n in ("param", "source", "track"):
            self.element(t)
            self.stack.pop()
            return
        if n == "hr":
            self.p_if()
            self.element(t)
            self.stack.pop()
            self.frameset_ok = False
            return
        if n == "image":
            t.name = "img"
            return self.again("start", t)
        if n == "textarea":
            self.element(t)
            self.skip_lf = True
            self.tk.state = self.tk.rcdata
            self.orig = self.mode
            self.frameset_ok = False
            self.mode = self.text_mode
            return
        if n == "xmp":
            self.p_if()
            self.reconstruct()
            self.frameset_ok = False
            return self.raw(t, self.tk.rawtext)
        if n == "iframe":
            self.frameset_ok = False
            return self.raw(t, self.tk.rawtext)
        if n == "noembed":
            return self.raw(t, self.tk.rawtext)
        if n == "select":
            self.reconstruct()
            self.element(t)
            self.frameset_ok = False
            self.mode = self.in_select_in_table if self.mode in (self.in_table, self.in_caption, self.in_table_body, self.in_row, self.in_cell) else self.in_select
            return
        if n in ("optgroup", "option"):
            if self.ishtml(self.cur, "option"):
                self.stack.pop()
            self.reconstruct()
            self.element(t)
            return
        if n in ("rb", "rtc"):
            if self.in_scope("ruby"):
                self.implied()
            self.element(t)
            return
        if n in ("rp", "rt"):
            if self.in_scope("ruby"):
                self.implied("rtc")
            self.element(t)
            return
        if n in ("math", "svg"):
            self.reconstruct()
            self.foreign_element(t, MATHML if n == "math" else SVG)
            return
        if n in ("caption", "col", "colgroup", "frame", "head", "tbody", "td", "tfoot", "th", "thead", "tr"):
            return
        self.reconstruct()
        self.element(t)

    def body_end(self, t):
        n = t.name
        if n == "template":
            return self.in_head("end", t)
        if n in ("body", "html"):
            if not self.in_scope("body"):
                return
            self.mode = self.after_body
            if n == "html":
                self.again("end", t)
            return
        if n in ("address", "article", "aside", "blockquote", "button", "center", "details", "dialog", "dir", "div", "dl", "fieldset", "figcaption", "figure", "footer", "header", "hgroup", "listing", "main", "menu", "nav", "ol", "pre", "section", "summary", "ul"):
            if not self.in_scope(n):
                return
            self.implied()
            self.pop_until(n)
            return
        if n == "form":
            if not self.has_template():
                node, self.form = self.form, None
                if node is None or not self.node_in_scope(node):
                    return
                self.implied()
                self.rm(self.stack, node)
            else:
                if not self.in_scope("form"):
                    return
                self.implied()
                self.pop_until("form")
            return
        if n == "p":
            if not self.button_scope("p"):
                self.fake("p")
            return self.close_p()
        if n in ("li", "dd", "dt"):
            if not (self.list_scope("li") if n == "li" else self.in_scope(n)):
                return
            self.implied(n)
            self.pop_until(n)
            return
        if n in HEADINGS:
            if not self.in_scope(*HEADINGS):
                return
            self.implied()
            self.pop_until(*HEADINGS)
            return
        if n in FORMATTING:
            return self.adoption(t)
        if n in ("applet", "marquee", "object"):
            if not self.in_scope(n):
                return
            self.implied()
            self.pop_until(n)
            self.clear_fmt()
            return
        if n == "br":
            t2 = Tag(False, "br")
            return self.body_start(t2)
        self.any_end(t)

    def any_end(self, t):
        for i in range(len(self.stack) - 1, -1, -1):
            node = self.stack[i]
            if self.ishtml(node, t.name):
                self.implied(t.name)
                del self.stack[i:]
                return
            if self.special(node):
                return

    def adoption(self, t):
        subj = t.name
        if self.ishtml(self.cur, subj) and not any(x is self.cur for x in self.fmt):
            self.stack.pop()
            return
        for _ in range(8):
            fe = None
            for e in reversed(self.fmt):
                if e is None:
                    break
                if e.name == subj:
                    fe = e
                    break
            if fe is None:
                return self.any_end(t)
            if not self.on_stack(fe):
                self.rm(self.fmt, fe)
                return
            if not self.node_in_scope(fe):
                return
            fi = next(i for i, x in enumerate(self.stack) if x is fe)
            fb = next((i for i in range(fi + 1, len(self.stack)) if self.special(self.stack[i])), None)
            if fb is None:
                del self.stack[fi:]
                self.rm(self.fmt, fe)
                return
            furthest = self.stack[fb]
            common = self.stack[fi - 1]
            bookmark = next(i for i, x in enumerate(self.fmt) if x is fe)
            last = furthest
            ni = fb
            inner = 0
            while True:
                inner += 1
                ni -= 1
                node = self.stack[ni]
                if node is fe:
                    break
                fpos = next((i for i, x in enumerate(self.fmt) if x is node), None)
                if inner > 3 and fpos is not None:
                    del self.fmt[fpos]
                    if fpos < bookmark:
                        bookmark -= 1
                    fpos = None
                if fpos is None:
                    del self.stack[ni]
                    continue
                e = self.create(self.tok[id(node)][0])
                self.fmt[fpos] = e
                self.stack[ni] = e
                node = e
                if last is furthest:
                    bookmark = fpos + 1
                last.remove()
                node.append(last)
                last = node
            last.remove()
            self.put(last, self.place(common))
            e = self.create(self.tok[id(fe)][0])
            for c in list(furthest.ch):
                e.append(c)
            furthest.append(e)
            pos = next(i for i, x in enumerate(self.fmt) if x is fe)
            del self.fmt[pos]
            if pos < bookmark:
                bookmark -= 1
            self.fmt.insert(bookmark, e)
            self.rm(self.stack, fe)
            i = next(i for i, x in enumerate(self.stack) if x is furthest)
            self.stack.insert(i + 1, e)

    def text_mode(self, kind, t, k=None):
        if kind == "chars":
            return self.text(t)
        if kind == "eof":
            self.stack.pop()
            self.mode = self.orig
            return self.again(kind, t)
        self.stack.pop()
        self.mode = self.orig

    def clear_to(self, *names):
        while not self.ishtml(self.cur, *names, "template", "html"):
            self.stack.pop()

    def in_table(self, kind, t, k=None):
        if kind == "chars" and self.ishtml(self.cur, "table", "tbody", "tfoot", "thead", "tr"):
            self.pending = []
            self.orig = self.mode
            self.mode = self.table_text
            return self.again(kind, t, k)
        if kind == "comment":
            return self.add_comment(t)
        if kind == "doctype":
            return
        if kind == "start":
            n = t.name
            if n == "caption":
                self.clear_to("table")
                self.fmt.append(None)
                self.element(t)
                self.mode = self.in_caption
                return
            if n == "colgroup":
                self.clear_to("table")
                self.element(t)
                self.mode = self.in_colgroup
                return
            if n == "col":
                self.clear_to("table")
                self.fake("colgroup")
                self.mode = self.in_colgroup
                return self.again(kind, t)
            if n in ("tbody", "tfoot", "thead"):
                self.clear_to("table")
                self.element(t)
                self.mode = self.in_table_body
                return
            if n in ("td", "th", "tr"):
                self.clear_to("table")
                self.fake("tbody")
                self.mode = self.in_table_body
                return self.again(kind, t)
            if n == "table":
                if not self.table_scope("table"):
                    return
                self.pop_until("table")
                self.reset()
                return self.again(kind, t)
            if n in ("style", "script", "template"):
                return self.in_head(kind, t)
            if n == "input" and alow(t.get("type") or "") == "hidden":
                self.element(t)
                self.stack.pop()
                return
            if n == "form":
                if self.has_template() or self.form is not None:
                    return
                self.form = self.element(t)
                self.stack.pop()
                return
        if kind == "end":
            n = t.name
            if n == "table":
                if not self.table_scope("table"):
                    return
                self.pop_until("table")
                self.reset()
                return
            if n in ("body", "caption", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr"):
                return
            if n == "template":
                return self.in_head(kind, t)
        if kind == "eof":
            return self.in_body(kind, t)
        self.foster = True
        self.in_body(kind, t, k)
        self.foster = False

    def table_text(self, kind, t, k=None):
        if kind == "chars":
            if k != 1:
                self.pending.append((t, k))
            return
        p, self.pending = self.pending, []
        self.mode = self.orig
        if any(x[1] == 2 for x in p):
            self.foster = True
            for s, kk in p:
                self.in_body("chars", s, kk)
            self.foster = False
        else:
            for s, kk in p:
                self.text(s)
        self.again(kind, t, k)

    def in_caption(self, kind, t, k=None):
        if kind == "end" and t.name == "caption" or kind == "start" and t.name in ("caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr") or kind == "end" and t.name == "table":
            if not self.table_scope("caption"):
                return
            self.implied()
            self.pop_until("caption")
            self.clear_fmt()
            self.mode = self.in_table
            if not (kind == "end" and t.name == "caption"):
                self.again(kind, t)
            return
        if kind == "end" and t.name in ("body", "col", "colgroup", "html", "tbody", "td", "tfoot", "th", "thead", "tr"):
            return
        self.in_body(kind, t, k)

    def in_colgroup(self, kind, t, k=None):
        if kind == "chars" and k == 0:
            return self.text(t)
        if kind == "comment":
            return self.add_comment(t)
        if kind == "doctype":
            return
        if kind == "start":
            if t.name == "html":
                return self.in_body(kind, t)
            if t.name == "col":
                self.element(t)
                self.stack.pop()
                return
            if t.name == "template":
                return self.in_head(kind, t)
        if kind == "end":
            if t.name == "colgroup":
                if not self.ishtml(self.cur, "colgroup"):
                    return
                self.stack.pop()
                self.mode = self.in_table
                return
            if t.name == "col":
                return
            if t.name == "template":
                return self.in_head(kind, t)
        if kind == "eof":
            return self.in_body(kind, t)
        if not self.ishtml(self.cur, "colgroup"):
            return
        self.stack.pop()
        self.mode = self.in_table
        self.again(kind, t, k)

    def in_table_body(self, kind, t, k=None):
        if kind == "start":
            n = t.name
            if n == "tr":
                self.clear_to("tbody", "tfoot", "thead")
                self.element(t)
                self.mode = self.in_row
                return
            if n in ("th", "td"):
                self.clear_to("tbody", "tfoot", "thead")
                self.fake("tr")
                self.mode = self.in_row
                return self.again(kind, t)
        if kind == "end":
            n = t.name
            if n in ("tbody", "tfoot", "thead"):
                if not self.table_scope(n):
                    return
                self.clear_to("tbody", "tfoot", "thead")
                self.stack.pop()
                self.mode = self.in_table
                return
            if n in ("body", "caption", "col", "colgroup", "html", "td", "th", "tr"):
                return
        if kind == "start" and t.name in ("caption", "col", "colgroup", "tbody", "tfoot", "thead") or kind == "end" and t.name == "table":
            if not self.table_scope("tbody", "tfoot", "thead"):
                return
            self.clear_to("tbody", "tfoot", "thead")
            self.stack.pop()
            self.mode = self.in_table
            return self.again(kind, t)
        self.in_table(kind, t, k)

    def in_row(self, kind, t, k=None):
        if kind == "start" and t.name in ("th", "td"):
            self.clear_to("tr")
            self.element(t)
            self.mode = self.in_cell
            self.fmt.append(None)
            return
        if kind == "end" and t.name == "tr":
            if not self.table_scope("tr"):
                return
            self.clear_to("tr")
            self.stack.pop()
            self.mode = self.in_table_body
            return
        if kind == "start" and t.name in ("caption", "col", "colgroup", "tbody", "tfoot", "thead", "tr") or kind == "end" and t.name == "table":
            if not self.table_scope("tr"):
                return
            self.clear_to("tr")
            self.stack.pop()
            self.mode = self.in_table_body
            return self.again(kind, t)
        if kind == "end" and t.name in ("tbody", "tfoot", "thead"):
            if not self.table_scope(t.name):
                return
            if not self.table_scope("tr"):
                return
            self.clear_to("tr")
            self.stack.pop()
            self.mode = self.in_table_body
            return self.again(kind, t)
        if kind == "end" and t.name in ("body", "caption", "col", "colgroup", "html", "td", "th"):
            return
        self.in_table(kind, t, k)

    def close_cell(self):
        self.implied()
        self.pop_until("td", "th")
        self.clear_fmt()
        self.mode = self.in_row

    def in_cell(self, kind, t, k=None):
        if kind == "end":
            n = t.name
            if n in ("td", "th"):
                if not self.table_scope(n):
                    return
                self.implied()
                self.pop_until(n)
                self.clear_fmt()
                self.mode = self.in_row
                return
            if n in ("body", "caption", "col", "colgroup", "html"):
                return
            if n in ("table", "tbody", "tfoot", "thead", "tr"):
                if not self.table_scope(n):
                    return
                self.close_cell()
                return self.again(kind, t)
        if kind == "start" and t.name in ("caption", "col", "colgroup", "tbody", "td", "tfoot", "th", "thead", "tr"):
            if not self.table_scope("td", "th"):
                return
            self.close_cell()
            return self.again(kind, t)
        self.in_body(kind, t, k)

    def in_select(self, kind, t, k=None):
        if kind == "chars":
            if k != 1:
                self.text(t)
            return
        if kind == "comment":
            return self.add_comment(t)
        if kind == "doctype":
            return
        if kind == "start":
            n = t.name
            if n == "html":
                return self.in_body(kind, t)
            if n == "option":
                if self.ishtml(self.cur, "option"):
                    self.stack.pop()
                self.element(t)
                return
            if n == "optgroup":
                if self.ishtml(self.cur, "option"):
                    self.stack.pop()
                if self.ishtml(self.cur, "optgroup"):
                    self.stack.pop()
                self.element(t)
                return
            if n in ("select", "input", "keygen", "textarea"):
                if not self.select_scope("select"):
                    return
                self.pop_until("select")
                self.reset()
                if n != "select":
                    self.again(kind, t)
                return
            if n in ("script", "template"):
                return self.in_head(kind, t)
            return
        if kind == "end":
            n = t.name
            if n == "optgroup":
                if self.ishtml(self.cur, "option") and len(self.stack) > 1 and self.ishtml(self.stack[-2], "optgroup"):
                    self.stack.pop()
                if self.ishtml(self.cur, "optgroup"):
                    self.stack.pop()
                return
            if n == "option":
                if self.ishtml(self.cur, "option"):
                    self.stack.pop()
                return
            if n == "select":
                if not self.select_scope("select"):
                    return
                self.pop_until("select")
                self.reset()
                return
            if n == "template":
                return self.in_head(kind, t)
            return
        return self.in_body(kind, t)

    def in_select_in_table(self, kind, t, k=None):
        if kind in ("start", "end") and t.name in ("caption", "table", "tbody", "tfoot", "thead", "tr", "td", "th"):
            if kind == "end" and not self.table_scope(t.name):
                return
            self.pop_until("select")
            self.reset()
            return self.again(kind, t)
        self.in_select(kind, t, k)

    def in_template(self, kind, t, k=None):
        if kind in ("chars", "comment", "doctype"):
            return self.in_body(kind, t, k)
        if kind == "start":
            n = t.name
            if n in ("base", "basefont", "bgsound", "link", "meta", "noframes", "script", "style", "template", "title"):
                return self.in_head(kind, t)
            m = (self.in_table if n in ("caption", "colgroup", "tbody", "tfoot", "thead") else self.in_colgroup if n == "col" else self.in_table_body if n == "tr" else self.in_row if n in ("td", "th") else self.in_body)
            self.tmodes[-1] = m
            self.mode = m
            return self.again(kind, t)
        if kind == "end":
            if t.name == "template":
                return self.in_head(kind, t)
            return
        if not self.has_template():
            return self.stop()
        self.pop_until("template")
        self.clear_fmt()
        self.tmodes.pop()
        self.reset()
        self.again(kind, t)

    def after_body(self, kind, t, k=None):
        if kind == "chars" and k == 0:
            return self.in_body(kind, t, k)
        if kind == "comment":
            return self.add_comment(t, self.stack[0])
        if kind == "doctype":
            return
        if kind == "start" and t.name == "html":
            return self.in_body(kind, t)
        if kind == "end" and t.name == "html":
            self.mode = self.after_after_body
            return
        if kind == "eof":
            return self.stop()
        self.mode = self.in_body
        self.again(kind, t, k)

    def in_frameset(self, kind, t, k=None):
        if kind == "chars":
            if k == 0:
                self.text(t)
            return
        if kind == "comment":
            return self.add_comment(t)
        if kind == "doctype":
            return
        if kind == "start":
            if t.name == "html":
                return self.in_body(kind, t)
            if t.name == "frameset":
                self.element(t)
                return
            if t.name == "frame":
                self.element(t)
                self.stack.pop()
                return
            if t.name == "noframes":
                return self.in_head(kind, t)
            return
        if kind == "end":
            if t.name == "frameset":
                if len(self.stack) == 1:
                    return
                self.stack.pop()
                if not self.ishtml(self.cur, "frameset"):
                    self.mode = self.after_frameset
            return
        self.stop()

    def after_frameset(self, kind, t, k=None):
        if kind == "chars":
            if k == 0:
                self.text(t)
            return
        if kind == "comment":
            return self.add_comment(t)
        if kind == "start":
            if t.name == "html":
                return self.in_body(kind, t)
            if t.name == "noframes":
                return self.in_head(kind, t)
            return
        if kind == "end":
            if t.name == "html":
                self.mode = self.after_after_frameset
            return
        if kind == "eof":
            self.stop()

    def after_after_body(self, kind, t, k=None):
        if kind == "comment":
            return self.add_comment(t, self.doc)
        if kind == "doctype" or kind == "chars" and k == 0 or kind == "start" and t.name == "html":
            return self.in_body(kind, t, k)
        if kind == "eof":
            return self.stop()
        self.mode = self.in_body
        self.again(kind, t, k)

    def after_after_frameset(self, kind, t, k=None):
        if kind == "comment":
            return self.add_comment(t, self.doc)
        if kind == "doctype" or kind == "chars" and k == 0 or kind == "start" and t.name == "html":
            return self.in_body(kind, t, k)
        if kind == "start" and t.name == "noframes":
            return self.in_head(kind, t)
        if kind == "eof":
            self.stop()

    def reset(self):
        for i in range(len(self.stack) - 1, -1, -1):
            n = self.stack[i]
            last = i == 0
            if n.ns == HTML:
                m = n.name
                if m == "select":
                    j = i
                    while j > 0:
                        j -= 1
                        if self.ishtml(self.stack[j], "template"):
                            break
                        if self.ishtml(self.stack[j], "table"):
                            self.mode = self.in_select_in_table
                            return
                    self.mode = self.in_select
                    return
                if m in ("td", "th") and not last:
                    self.mode = self.in_cell
                    return
                if m == "tr":
                    self.mode = self.in_row
                    return
                if m in ("tbody", "thead", "tfoot"):
                    self.mode = self.in_table_body
                    return
                if m == "caption":
                    self.mode = self.in_caption
                    return
                if m == "colgroup":
                    self.mode = self.in_colgroup
                    return
                if m == "table":
                    self.mode = self.in_table
                    return
                if m == "template":
                    self.mode = self.tmodes[-1]
                    return
                if m == "head" and not last:
                    self.mode = self.in_head
                    return
                if m == "body":
                    self.mode = self.in_body
                    return
                if m == "frameset":
                    self.mode = self.in_frameset
                    return
                if m == "html":
                    self.mode = self.before_head if self.head is None else self.after_head
                    return
            if last:
                self.mode = self.in_body
                return


def parse(text, spec=True):
    b = Builder(spec)
    Tokenizer(text, b).run()
    return b


def dump(n, template=None):
    """html5lib-style lines."""
    out = []

    def go(x, d):
        for c in x.ch:
            ind = "| " + "  " * d
            if c.kind == "E":
                out.append(ind + "<" + ("" if c.ns == HTML else c.ns + " ") + c.name + ">")
                for k, v in sorted(((a[0] + " " if a[0] else "") + a[2], a[3]) for a in c.attrs):
                    out.append(ind + "  " + k + '="' + v + '"')
                if template and c.name == "template" and c.ns == HTML:
                    out.append(ind + "  content")
                    go(c, d + 2)
                else:
                    go(c, d + 1)
            elif c.kind == "T":
                out.append(ind + '"' + c.data + '"')
            elif c.kind == "C":
                out.append(ind + "<!-- " + c.data + " -->")
            else:
                out.append(ind + "<!DOCTYPE " + c.name + (' "%s" "%s"' % (c.pub, c.sys) if c.pub or c.sys else "") + ">")
    go(n, 0)
    return "\n".join(out)
