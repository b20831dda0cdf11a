"""H01-H04: HTML parsing, serialization and make_document."""
import json
import random
from .core import *
from . import html_ref as R, enc_ref as X
from .encoding import LABEL, LABELS

SEEDS = json.load(open(os.path.join(os.path.dirname(__file__), "data", "html_inputs.json")))
FAM = {
    "fmt": "a b big code em font i nobr s small strike strong tt u".split(),
    "block": "address article aside blockquote center details dialog dir div dl fieldset figcaption figure footer header hgroup main menu nav ol p section summary ul h1 h2 h3 h4 h5 h6 pre listing form li dd dt button plaintext search".split(),
    "table": "table caption colgroup col tbody tfoot thead tr td th".split(),
    "head": "base basefont bgsound link meta title noscript noframes style script template head body html".split(),
    "void": "area br embed img keygen wbr input param source track hr image frame".split(),
    "raw": "textarea xmp iframe noembed noscript title style script noframes plaintext".split(),
    "select": "select option optgroup input keygen textarea hr script template".split(),
    "frame": "frameset frame noframes body html".split(),
    "foreign": "svg math mi mo mn ms mtext mglyph malignmark annotation-xml foreignObject desc title foreignobject path linearGradient textpath clipPath font image script feGaussianBlur ruby mtable g".split(),
    "misc": "ruby rb rt rtc rp applet marquee object span x-y optgroup option sarcasm nosuch".split(),
}
ALL = sorted({t for v in FAM.values() for t in v})
TEXT = ["x", "y", "A", " ", "\n", "\t", "text", "a b", "\u3042", "\U0001f600", "&", "&amp;", "&lt", "\x00", "\r", "\r\n", "\f", "  z", "\n\n", "\xa0", "&#0;", "&copy", "12", "<", "\ufeff"]
ENTS = ["amp", "lt", "gt", "quot", "nbsp", "notit", "notin", "not", "noti", "ampx", "copy", "reg", "AMP", "NotEqualTilde", "nvlt", "Aacute", "fjlig", "bne", "acE", "ThickSpace", "CounterClockwiseContourIntegral", "xxx", "#65", "#x41", "#X3042", "#128", "#x80", "#0", "#xD800", "#x110000", "#99999999999", "#x", "#", "#xG", "#1114111", "#4294967361", "#x100000041", "#18446744073709551681", "#xFFFE", "#13", "#x0d", "#159", "#129", "prod", "prop", "sup1", "sup", "hellip", "zwnj", "lang", "rang", "in", "int", "i", "rarrw", "para", "parallel", "centerdot", "cent"]
ENAMES = sorted(R.ENT)
ATTR = ["id", "class", "href", "title", "type", "charset", "content", "http-equiv", "action", "color", "face", "size", "xlink:href", "xml:lang", "xmlns", "xmlns:xlink", "definitionurl", "viewbox", "encoding", "prompt", "name", "shadowrootmode", "xlink:actuate", "attributename", "ID", "xml:space", "xlink:foo", "xml:base"]
AVAL = ["", "a", "b", "hidden", "HIDDEN", "text", "text/html", "TEXT/HTML", "application/xhtml+xml", "x y", "&amp;", "&lt", "&ltx", "&lt=", "&notit;", "&#65", "'", "<", ">", "\u3042", "\x00", "`", "=", "\r\n", "utf-8", "red"]


def attr(r):
    n = r.choice(ATTR)
    k = r.random()
    if k < .1:
        n = r.choice(["a", "A", "\u00e9", "<", "'", "a\x00b", "=x", "\"", "a\"b", "-", "x:y"])
    elif k < .2:
        n = n.upper()
    v = r.choice(AVAL) if r.random() < .85 else "&" + ent(r) + r.choice(["", "x", "="])
    k = r.random()
    ws = lambda: r.choice(["", "", "", "", " ", "\n", "\t "])
    if k < .15:
        return n
    if k < .6:
        return n + ws() + "=" + ws() + '"' + v.replace('"', "") + '"'
    if k < .75:
        return n + ws() + "=" + ws() + "'" + v.replace("'", "") + "'"
    return n + ws() + "=" + ws() + "".join(c for c in v if c not in " \r\n>")


def ent(r):
    k = r.random()
    e = r.choice(ENTS) if k < .5 else r.choice(ENAMES)
    if k > .9:
        e = e[:r.randrange(len(e)) + 1]
    return e + (";" if r.random() < .5 and not e.endswith(";") else "")


def start(r, n):
    o = "<" + (n if r.random() < .93 else n.upper())
    k = r.random()
    for _ in range(0 if k < .6 else 1 if k < .85 else r.randrange(1, 5)):
        o += r.choice([" ", " ", " ", "\n", "/", "  ", "\t", ""] if r.random() < .2 else [" "]) + attr(r)
    if n == "input" and r.random() < .4:
        o += r.choice([" type=hidden", " type=HIDDEN", " type=hiddenx", " type=text", " type=''"])
    if n == "annotation-xml" and r.random() < .7:
        o += r.choice([" encoding=text/html", " encoding='application/xhtml+xml'", " encoding='Text/HTML'", " encoding=x", " Encoding=TEXT/html"])
    if n == "font" and r.random() < .4:
        o += r.choice([" color", " face=x", " size=1", " SIZE=2", " z"])
    return o + (r.choice(["/", " /", "/ "]) if r.random() < .1 else "") + (">" if r.random() < .98 else "")


def end(r, n):
    return "</" + (n if r.random() < .95 else n.upper()) + (r.choice([" ", " a=b", "/", "\n"]) if r.random() < .06 else "") + (">" if r.random() < .985 else "")


def comment(r):
    k = r.random()
    b = r.choice(["", "x", "-", "--", "->", ">", "a-b", "a--b", "--!", "<!--", "<!-", "a<!--b", "!", "\x00", "-->", "--!>", "<", "<!", "-<!--", "--x", "<!--->", "<!--x--!"])
    if k < .6:
        return "<!--" + b + r.choice(["-->", "-->", "-->", "--!>", "->", "--", "-", ""])
    return r.choice(["<!", "<?", "</", "<!x", "<!-", "<!>", "<?>", "</>", "</ ", "<!DOC", "<![CDATA[", "<![CDATA", "<![cdata["]) + b + r.choice([">", ">", "]]>", "]>", ""])


def doctype(r):
    if r.random() < .3:
        return r.choice(["<!DOCTYPE html>", "<!doctype html>", "<!DOCTYPE>", "<!DOCTYPE HTML >", "<!DOCTYPEhtml>", "<!DOCTYPE x>", "<!DOCTYPE html SYSTEM 'about:legacy-compat'>"])
    pub = r.choice(["", "x", "-//W3C//DTD HTML 4.01//EN", "-//W3C//DTD HTML 4.01 Frameset//EN", "-//W3C//DTD HTML 4.01 Transitional//", "-//W3C//DTD XHTML 1.0 Frameset//EN", "-//W3C//DTD XHTML 1.0 Transitional//EN",
                    "-//W3C//DTD XHTML 1.0 Strict//EN", "-//W3O//DTD W3 HTML Strict 3.0//EN//", "-/W3C/DTD HTML 4.0 Transitional/EN", "HTML", "html", "+//Silmaril//dtd html Pro v0r11 19970101//EN", "-//IETF//DTD HTML//EN", "-//IETF//DTD HTML 2.0 Level 1//EN", "-//w3c//dtd html 3.2//", "-//W3C//DTD HTML 3.2 Final//EN", "-//W3C//DTD HTML 4.0 Frameset//EN", "-//WebTechs//DTD Mozilla HTML//EN", "-//W3C//DTD W3 HTML//EN", "-//AS//DTD HTML 3.0 asWedit + extensions//EN", "-//Sun Microsystems Corp.//DTD HotJava HTML//EN", "-//W3C//DTD HTML 4.01 frameset", "ISO/IEC 15445:1999//DTD HTML//EN"] + list(R.Q_PUB_PREFIX))
    if r.random() < .4:
        pub = r.choice(list(R.Q_PUB_PREFIX)) + r.choice(["", "EN", "//EN"])
    if r.random() < .15 and pub:
        pub = pub[:r.randrange(len(pub))] if r.random() < .5 else pub.swapcase()
    sys = r.choice(["", "x", "about:legacy-compat", "http://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd", "HTTP://www.ibm.com/data/dtd/v11/ibmxhtml1-transitional.dtd", "http://www.w3.org/TR/html4/strict.dtd"])
    q = lambda s: (lambda c: c + s + c)(r.choice("'\""))
    ws = lambda: r.choice([" ", " ", " ", "", "\n", "  ", "\t", "\f", " \t\n"])
    if r.random() < .08:
        i = r.randrange(len(pub) + 1)
        pub = pub[:i] + r.choice(["\0", ">", "\n", "&amp;", "\xe9"]) + pub[i:]
    if r.random() < .08:
        sys += r.choice(["\0", ">", "\n", "&amp;", "\xe9"])
    o = r.choice(["<!DOCTYPE", "<!doctype", "<!DocType"]) + ws() + r.choice(["html", "html", "html", "HTML", "", "x", "h\x00"])
    k = r.random()
    if k < .4:
        o += (ws() or " ") + r.choice(["PUBLIC", "public", "Public"]) + ws() + q(pub)
    elif k < .7:
        o += (ws() or " ") + "PUBLIC" + ws() + q(pub) + ws() + q(sys)
    elif k < .85:
        o += (ws() or " ") + r.choice(["SYSTEM", "system"]) + ws() + q(sys)
    elif k < .95:
        o += r.choice([" PUBLIC", " PUBLIC x", " SYSTEM", " SYSTEM x", " x", " PUBLICX ''", " PUB", " PUBLIC 'a", " PUBLIC '' 'b", " PUBLIC 'a>", " SYSTEM '>'", " PUBLIC '' x"])
    return o + (r.choice(["", " ", "x", " x"]) if r.random() < .2 else "") + r.choice([">"] * 12 + [""])


def script(r):
    p = ["<!--", "-->", "<script>", "</script>", "<script ", "</script ", "<SCRIPT>", "--", "-", "<", "</", "<!-", "<!", "x", "\x00", "<s", "</s", "<scrip", "</scripT/", "--!>", ">", "<script/", "</scriptx>", "</style>"]
    if r.random() < .5:   # escaped, then ways to leave
        w = lambda: r.choice("\t\n\f />\r") + r.choice(["", "", ">", "x"])
        q = [lambda: "<!--", lambda: "<script" + w(), lambda: "</script" + w(), lambda: "-" * r.randrange(1, 4) + r.choice(["", ">", "<", "x", "\0"]), lambda: r.choice("x<\0>-")]
        return "<script><!--" + "".join(r.choice(q)() for _ in range(r.randrange(1, 8))) + r.choice(["", "</script>", "</script>y", "--></script>z", "</script\n>w", "</script\f>v"])
    return "<script>" + "".join(r.choice(p) for _ in range(r.randrange(1, 9))) + r.choice(["</script>"] * 4 + [""])


def rawtext(r):
    n = r.choice(FAM["raw"] + ["listing", "pre"])
    return start(r, n) + "".join(r.choice(["x", "\n", "&amp;", "<b>", "<!--", "-->", "</" + n[:3], "</" + n + "x>", "</", "<", "\x00", "&lt", "</p>", "\r\n"]) for _ in range(r.randrange(0, 5))) + (end(r, n) if r.random() < .85 else "")


def tags(r):
    fams = r.sample(sorted(FAM), r.choice([1, 1, 2, 2, 3, 4]))
    pool = [t for f in fams for t in FAM[f]]
    pool = r.sample(pool, min(len(pool), r.choice([2, 3, 4, 6, 10, 20])))
    if r.random() < .2:
        pool += [r.choice(ALL)]
    return pool


def token(r, pool):
    k = r.random()
    if k < .48:
        return start(r, r.choice(pool))
    if k < .68:
        return end(r, r.choice(pool))
    if k < .88:
        return r.choice(TEXT)
    if k < .91:
        return "&" + ent(r)
    if k < .94:
        return comment(r)
    if k < .955:
        return doctype(r)
    if k < .97:
        return rawtext(r)
    if k < .98:
        return script(r)
    return r.choice([start, end])(r, r.choice(ALL))


def soup(r):
    pool = tags(r)
    o = ""
    k = r.random()
    if k < .5:
        o = r.choice(["<!DOCTYPE html>", "<!DOCTYPE html>", "<p>", "<div>", "<table>", "<svg>", "<math>", "<select>", "<template>", "<frameset>", "<body>", "<head>", "<table><tr><td>", "<!DOCTYPE html><body>", "<button>", "<template><tr>", "<svg><desc>", "<math><annotation-xml>"])
    return o + "".join(token(r, pool) for _ in range(r.choice([2, 4, 8, 12, 20, 30])))


def nest(r, pool, depth, left):
    o = ""
    for _ in range(r.randrange(1, 4)):
        if left[0] <= 0:
            break
        left[0] -= 1
        n = r.choice(pool)
        o += start(r, n)
        if depth and r.random() < .7:
            o += nest(r, pool, depth - 1, left)
        else:
            o += r.choice(TEXT)
        if r.random() < .75:
            o += end(r, n if r.random() < .85 else r.choice(pool))
        if r.random() < .3:
            o += r.choice(TEXT)
    return o


def aaa(r):
    """Formatting elements closed across blocks and tables: the adoption agency and reconstruction."""
    f = r.sample(FAM["fmt"], r.randrange(1, 4))
    b = r.sample(FAM["block"] + ["table", "tr", "td", "select", "object", "marquee", "svg", "template"], r.randrange(1, 4))
    o = ""
    if r.random() < .15:   # as many blocks as the outer loop has rounds, formatting and ordinary elements between them
        for _ in range(r.randrange(6, 12)):
            o += "".join("<" + r.choice(f) + ">" for _ in range(r.choice([0, 0, 1, 1, 2, 4]))) \
                + ("<" + r.choice(["span", "x", "kbd"]) + ">" if r.random() < .3 else "") + "<" + r.choice(["div", "p", "div", "ul", b[0]]) + ">"
        o = "<" + f[0] + ">" + o + "</" + f[0] + ">"
        if r.random() < .5:   # what is left of the list is reconstructed outside
            o = r.choice(["<section>" + o + "</section>", "<table><td>" + o + "</table>", "<button>" + o + "</button>"]) + "v"
    if r.random() < .25:   # formatting elements over a block, some of them ordinary, all closed by a wrapper: then reconstruct
        w = r.choice(["div", "section", "blockquote", "td", "caption", "button", "li"])
        m = "".join("<" + (r.choice(f) if r.random() < .6 else r.choice(["span", "x", "ruby", "kbd", "sub"])) + ">" for _ in range(r.randrange(1, 6)))
        o += ("<table><tr>" if w == "td" else "<table>" if w == "caption" else "") + "<" + w + "><" + f[0] + ">" + m + "<" + r.choice(["p", "div", "ul", "h1"]) + ">" \
            + r.choice(["", "t", "<" + f[-1] + ">"]) + "</" + r.choice([f[0], f[0], f[-1]]) + ">" + r.choice(["", "u"]) + "</" + w + ">v"
        if r.random() < .5:
            return o
    for _ in range(r.randrange(3, 22)):
        k = r.random()
        if k < .35:
            n = r.choice(f)
            o += "<" + n + (r.choice([" id=1", " id=2", " class=x id=1", " id=1 class=x"]) if r.random() < .3 else "") + ">"
        elif k < .55:
            o += "<" + r.choice(b) + ">"
        elif k < .75:
            o += "</" + r.choice(f) + ">"
        elif k < .87:
            o += "</" + r.choice(b) + ">"
        else:
            o += r.choice("1234 ")
    return o


def tok(r):
    """Text shaped for the tokenizer."""
    k = r.random()
    if k < .2:
        return r.choice(["", "<!DOCTYPE html>"]) + "".join(comment(r) + r.choice(["", "x"]) for _ in range(r.randrange(1, 4)))
    if k < .4:
        return doctype(r) + r.choice(["", "<p><table>", "x"])
    if k < .55:
        return "".join("&" + ent(r) + r.choice(["", "", "x", " ", "&", "1", "="]) for _ in range(r.randrange(1, 8)))
    if k < .7:
        return script(r) + r.choice(["", "y", "<p>"])
    if k < .8:
        return rawtext(r) + r.choice(["", "y"])
    if k < .9:
        return "<a " + r.choice([" ", "", "/"]).join(attr(r) for _ in range(r.randrange(1, 6))) + r.choice([">", "/>", "", " "]) + "x"
    p = "<>/!-?&;#'\"= \n\tabcAx0\x00\r[]"
    return "".join(r.choice(p) for _ in range(r.randrange(1, 30)))


def seeded(r):
    s = r.choice(SEEDS)
    k = r.random()
    if k < .2:
        return s
    if k < .5:
        t = r.choice(SEEDS)
        return s[:r.randrange(len(s) + 1)] + t[r.randrange(len(t) + 1):]
    for _ in range(r.randrange(1, 4)):
        p = r.randrange(len(s) + 1)
        k = r.random()
        if k < .5:
            s = s[:p] + token(r, tags(r)) + s[p:]
        elif k < .75:
            s = s[:p] + s[p + r.randrange(1, 6):]
        elif k < .85:
            q = r.randrange(len(s) + 1)
            s = s[:q] + s[min(p, q):max(p, q)] + s[q:]
        else:
            s = s[:p] + r.choice(TEXT) + s[p:]
    return s


MODE = "table table tbody tr td th caption colgroup select select template template template".split()
BLOCK = "p div b a i button li dd form svg math svg><foreignObject svg><desc svg><title math><mi math><annotation-xml head body html frameset object marquee h1 nosuch nosuch math><mn math><ms option optgroup nobr font applet noscript textarea input thead tfoot col ruby rt".split()
PROBE = ["x", " ", "\n", "\0", "<!--c-->", "<!DOCTYPE html>", "<input type=hidden>", "<input>", "<option>o", "<optgroup>", "<td>d", "<th>", "<tr>r", "<tbody>", "<tfoot>", "<caption>c", "<col>", "<colgroup>", "<select>", "<textarea>t</textarea>", "<template>", "<script>s</script>", "<style>s</style>",
         "<p>p", "<li>", "<b>", "<hr>", "<svg>", "<math>", "<meta>", "<link>", "<base>", "<title>t</title>", "<frame>", "<frameset>", "<form>", "<keygen>", "<a>a", "<nobr>", "<body x=1>", "<html y=2>", "<head>", "<table>", "<noframes>", "</p>", "</br>", "</form>", "</a>", "</b>"]


def modes(r):
    """a stack of elements that choose insertion modes, then ends and probes: what the modes are reset to matters"""
    st = [r.choice(MODE) if r.random() < .75 else r.choice(BLOCK) for _ in range(r.choice([1, 2, 3, 3, 4, 4, 5, 7]))]
    o = [r.choice(["", "<!DOCTYPE html>"])]
    for n in st:
        o.append("<" + n + ">")
        if r.random() < .12:
            o.append(r.choice(PROBE))
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        k = r.random()
        if k < .35:
            o.append("</" + r.choice(st[-3:]).split("<")[-1] + ">")
        elif k < .5:
            o.append("</" + r.choice(MODE if r.random() < .7 else BLOCK).split("<")[-1] + ">")
        elif k < .6:
            o.append("<" + r.choice(MODE) + ">")
        else:
            o.append(r.choice(PROBE))
    o += [r.choice(PROBE) for _ in range(r.choice([1, 2, 3]))]
    return "".join(o)


def resets(r):
    """something that ends inside a stack of mode-choosing elements, then a token that tells the modes apart"""
    o = ["<" + r.choice("table template select table template select tr td caption colgroup tbody th body head frameset html div optgroup svg><desc b".split()) + ">" for _ in range(r.choice([0, 1, 2, 3, 3, 3, 4, 5]))]
    o.append(r.choice(["<template></template>", "<select></select>", "<table></table>", "<template>x</template>", "<table><tr><td></table>", "<select><option></select>", "<template><select></template>", "<template><td></template>", "<select><template></template>", "<svg></svg>", "<caption></caption>", "<td></td>", "<select><input>", "<select><tr>", "</template>", "</select>", "</table>", "<textarea></textarea>", "<style></style>"]))
    o.append(r.choice(["<tr>", "<td>", "<caption>", "<col>", "<table>", "<tbody>", "</table>", "</td>", "</tr>", "</caption>", "</tbody>", "<option>", "x", " ", "<frame>", "<meta>", "</template>", "<select>", "</select>", "<input>", "<p>", "</body>", "</head>", "<frameset>", "<body a>", "<html b>", "</html>", "<template>"]))
    o.append(r.choice(["x<option>y", "<option>x</select>y", "x<p>y", "<b>x", " x", "</table>y", "<td>x", "<!--c-->"]))
    return "".join(o)


def foreign(r):
    """in and out of SVG and MathML: integration points in the right and in the wrong namespace, tags that must leave, then structure"""
    ch = r.choice
    deep = "desc title foreignObject foreignobject annotation-xml mi mo mn ms mtext mglyph malignmark g circle mrow svg math p b table tr td select template font script style".split()
    def an():
        n = ch(deep)
        if n == "annotation-xml":
            n += ch(["", "", " encoding=text/html", " encoding='Application/xhtml+XML'", " encoding=text/htm", " encoding='text/html '", " ENCODING=TEXT/HTML", " a=1"])
        elif n == "font":
            n += ch(["", " color", " FACE=x", " size=1", " id=1"])
        elif r.random() < .1:
            n += ch([" a=1 xlink:href=2", " viewbox=1", " definitionurl=2", " xml:lang=x", " color=1"])
        return "<" + n + (ch(["/>", "/>", " />"]) if r.random() < .12 else ">")
    if r.random() < .3:
        # end body (or html) within, one more start tag, then out again: the mode left behind shows where the comment goes
        n = ch("desc title foreignObject annotation-xml mi mtext mglyph malignmark g".split())
        o = [ch(["", "<p>", "<div>"]), ch(["<svg>", "<math>"]), "<" + n + ch(["", "", " encoding=text/html"]) + ">", ch(["", "", "x"]), ch(["</body>", "</body>", "</body></html>", "</table>", "</head>"])]
        m = ch("svg math mglyph malignmark p b g font".split())
        o += ["<" + m + ">", ch(["", "", "x", "</%s>" % m, "</%s>" % m]), ch(["", "</%s>" % n]), ch(["", "</svg>", "</math>", "</svg></svg>"]), ch(["<!--c-->", "x<!--c-->", "<!--c--></html><!--d-->"])]
        return "".join(o)
    o = [ch(["", "", "<!DOCTYPE html>", "<p>", "<table>", "<table><tr><td>", "<b>", "<template>", "<select>", "<body>"])]
    o.append(ch(["<svg>", "<math>"]))
    for _ in range(ch([0, 1, 1, 1, 2, 2, 3, 4])):
        o.append(an())
    for _ in range(r.randrange(1, 5)):
        k = r.random()
        if k < .3:
            o.append(ch(["</body>", "</html>", "</p>", "</br>", "</table>", "</svg>", "</math>", "</desc>", "</mi>", "</annotation-xml>", "</foreignObject>", "</TITLE>", "</b>", "</template>", "</select>", "</td>", "</script>", "</g>", "</SVG>", "</head>"]))
        elif k < .75:
            o.append(an())
        else:
            o.append(ch(["x", " ", "\0", "\0x", "<!--c-->", "<!DOCTYPE q>", "&amp;", "<frameset>", "<col>", "<body a>", "<html b>", "<br>", "<div>", "<li>", "<ruby>", "<u>", "<h1>", "<image>", "<input>", "<option>", "<frame>"]))
    o.append(ch(["x", "<!--e-->", "<p>y", "<svg>z<!--f-->", "</body><!--g-->", "</html><!--h-->", "<td>w", "<b>v", "<math><mi>u"]))
    return "".join(o)


def text(r):
    k = r.random()
    if k < .08:
        s = resets(r)
    elif k < .14:
        s = modes(r)
    elif k < .22:
        s = foreign(r)
    elif k < .3:
        s = soup(r)
    elif k < .45:
        s = aaa(r)
    elif k < .6:
        s = nest(r, tags(r), r.randrange(1, 6), [30])
    elif k < .75:
        s = tok(r)
    else:
        s = seeded(r)
    if r.random() < .05 and s:
        s = s[:r.randrange(len(s))]
    if r.random() < .03:
        s += "\r"
    return "".join(c for c in s if not 0xD800 <= ord(c) <= 0xDFFF)[:3000]


def render(b, ids=True):
    out = [b.quirks]

    def go(x, d):
        ind = "| " + "  " * d
        for c in x.ch:
            if c.kind == "E":
                out.append(ind + "<" + ("" if c.ns == R.HTML else c.ns + " ") + c.name + ">")
                for a in c.attrs:
                    out.append(ind + "  " + (a[0] + " " if a[0] else "") + (a[1] + ":" if a[1] else "") + a[2] + '="' + a[3] + '"')
                go(c, d + 1)
            elif c.kind == "T":
                out.append(ind + '"' + c.data + '"')
            elif c.kind == "C":
                out.append(ind + "<!-- " + c.data + " -->")
            else:
                out.append(ind + "<!DOCTYPE " + c.name + (' "%s" "%s"' % (c.pub, c.sys) if ids else "") + ">")
    go(b.doc, 0)
    return "\n".join(out) + "\n"


def hx(s):
    return (s.encode("utf-8", "surrogatepass") if isinstance(s, str) else s).hex()


# H01 tree construction ---------------------------------------------------------------------------------------------

def line1(c):
    return "P %d %s %s %s" % (c["tree"], "1" if c["before"] is not None else "0", hx(c["before"] or "") or ".", hx(c["text"]) or ".")


def expect1(cases, spec=False):
    return [hx(render(R.parse(c["text"], spec))) for c in cases]


def dec(h):
    return bytes.fromhex(h).decode("utf-8", "replace")


def lines_of(h):
    return bytes.fromhex(h).decode("utf-8", "replace").split("\n")


def what(s):
    s = s.lstrip("| ")
    return "a text" if s.startswith('"') else "a comment" if s.startswith("<!--") else "a doctype" if s.startswith("<!D") else "an element" if s.startswith("<") else "the mode" if len(s) == 1 else "an attribute" if "=" in s else "the end" if not s else "a text"


def sig1(c, got, want):
    g, w = lines_of(got), lines_of(want)
    for a, b in zip(g, w):
        if a != b:
            return "the tree has %s where the standard has %s%s" % (what(a), what(b), " (other depth)" if what(a) == what(b) and a.lstrip("| ") == b.lstrip("| ") else "")
    return "the tree is longer or shorter than the standard's"


CANARY = [dict(text="<!DOCTYPE html><svg><![CDATA[x]]></svg>", tree=4, before=None), dict(text="<!DOCTYPE html><p><![CDATA[x]]></p>", tree=4, before=None)]


def show(c):
    return repr(c["text"]) if "text" in c else repr(c)


CONTEXT = ["", "<!DOCTYPE html>", "<!DOCTYPE html>x", "<head>", "<head></head>", "<p>", "<p><b>", "<button><p>", "<li>", "<ul><li><p>", "<dd>", "<h1>", "<form>", "<a>", "<b><i><div>", "<nobr>", "<object><b>", "<marquee>", "<ruby><rt>",
           "<table>", "<table><caption>", "<table><colgroup>", "<table><tbody>", "<table><tr>", "<table><tr><td>", "<table><tr><td><p><b>", "<table>x", "<table><b>", "<select>", "<select><optgroup><option>", "<table><tr><td><select>", "<template>", "<template><col>", "<template><tr>", "<template><td>", "<template><div>",
           "<table><template>", "<frameset>", "<frameset></frameset>", "<frameset></frameset></html>", "</body>", "</body></html>", "<svg>", "<svg><desc>", "<svg><foreignObject><p>", "<svg><title>", "<math>", "<math><mi>", "<math><annotation-xml>", "<math><annotation-xml encoding=text/html>",
           "<noscript>", "<head><noscript>", "<textarea>", "<title>", "<style>", "<xmp>", "<plaintext>", "<pre>", "<math><mtext><b>", "<p><svg><desc><p>", "<option>", "<applet><p>", "<select><template>", "<dialog><p>", "<math><mn>", "<math><mo><b>", "<math><ms>", "<nosuch><table><tbody>", "<nosuch><table><thead>", "<nosuch><select>", "<h4>", "<table><template><select>", "<select><table>", "<template><title>t</title>", "<template><template><tr>"]
TAIL = ["%s", "%sx", "%s<p>y", "%s</p>z", "%s</b>w", "%s<td>v", "%s\n\nu", "%s</table>t", "%s</select>s", "%s<!--c-->", "%s</svg>", "%s</template>q", "x%s", " %s ", "%s<b>1</p>2", "%s</div></li>3", "%s</body>4", "%s</i>5<a>", "%s<tr>6", "%s<option>7", "%s</nosuch>8", "%s</h4>9", "%s<!--x--></html><!--y-->", "%s</template><td>0"]


def systematic(tier, r):
    """every tag, as a start and as an end tag, in every context; every entry of the adjustment and quirks tables"""
    names = sorted(set(ALL) | R.SPECIAL | R.BREAKOUT | R.FORMATTING | set(R.SVG_TAGS) | R.SPECIAL_M | {"h3", "h4", "h5", "nosuch", "mglyph", "malignmark"})
    out = []
    for n in names:
        for x in CONTEXT:
            for t in ("<%s>" % n, "</%s>" % n):
                for tail in TAIL if tier != "quick" else r.sample(TAIL, 2):
                    out.append(x + tail % t)
    for n in R.SVG_TAGS:
        out += ["<svg><%s a></%s>x" % (n, n.upper()), "<math><%s>" % n, "<%s>y" % n, "<svg><%s><p>" % R.SVG_TAGS[n]]
    for n in list(R.SVG_ATTRS) + list(R.FOREIGN_ATTRS) + ["definitionurl", "xlink:x", "xml:x", "xmlns:x", "contentscripttype"]:
        out += ["<svg %s=1><g %s=2>" % (n, n.upper()), "<math %s=1><mi %s=2>" % (n, n.upper()), "<p %s=1>" % n, "<svg><desc><p %s=1>" % n]
    for q in sorted(R.Q_PUB_EXACT) + sorted(R.Q_PUB_PREFIX) + ["-//w3c//dtd html 4.01 frameset//", "-//w3c//dtd html 4.01 transitional//", "-//w3c//dtd xhtml 1.0 frameset//", "-//w3c//dtd xhtml 1.0 transitional//"]:
        for v in (q, q + "x", q + "EN", q.upper(), q[:-1], "x" + q, q[1:]):
            out += ["<!DOCTYPE html PUBLIC '%s'>" % v, "<!DOCTYPE html PUBLIC \"%s\" \"y\"><p><table>" % v, "<!DOCTYPE html SYSTEM '%s'>" % v]
    for c in list(range(0, 0x110)) + [0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFDD0, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFE, 0x10FFFE, 0x10FFFF, 0x110000, 0xFFFFFFFF, 0x100000041, 1 << 64]:
        out += ["&#%d;" % c, "<a b='&#x%x;'>&#X%X" % (c, c), "<a b=&#%dx>" % c]
    return out


def H01(c, tier, r):
    c.rule = "One case is one text, parsed code point by code point into a u8, u16 or u32 tree (sometimes by a parser used before and cleared); distinct by content and resulting tree."
    exe = binary()
    cases = [dict(text=s, tree=(1, 2, 4)[i % 3], before=None) for i, s in enumerate(SEEDS)]
    for _ in range(270000 if tier == "quick" else 4000000):
        cases.append(dict(text=text(r), tree=r.choice([1, 2, 4]), before=text(r) if r.random() < .12 else None))
    cases += [dict(text=t, tree=(1, 2, 4)[i % 3], before=None) for i, t in enumerate(systematic(tier, r))]
    cases += [dict(text="<p>&" + e + "x=&" + e + "<a b='&" + e + "' c='&" + e + "z'>", tree=4, before=None) for e in ENAMES]
    compare(c, exe, cases, line1, expect1, sig1, tier, show=show, dec=dec)
    compare(c, exe, CANARY, line1, lambda cs: expect1(cs, True), lambda *a: "a CDATA section is not taken as the standard says", tier, label="known", show=show, dec=dec)


# H02 serialization -------------------------------------------------------------------------------------------------

NSI = ["", R.HTML, R.MATHML, R.SVG, R.XLINK, R.XML, R.XMLNS]
VOID = set("area base br col embed hr img input link meta param source track wbr basefont bgsound frame keygen".split())
RAWP = set("style script xmp iframe noembed noframes plaintext".split())


def esc(s, attr=False):
    s = s.replace("&", "&amp;").replace("\xa0", "&nbsp;")
    return s.replace('"', "&quot;") if attr else s.replace("<", "&lt;").replace(">", "&gt;")


def ser(n):
    """The HTML fragment serialization algorithm on the children of n."""
    if n.kind == "E" and n.ns == R.HTML and n.name in VOID:
        return ""
    o = []
    for c in n.ch:
        if c.kind == "E":
            q = c.name if c.ns in (R.HTML, R.MATHML, R.SVG) or not c.pub else c.pub + ":" + c.name
            o.append("<" + q)
            for ns, pre, k, v in c.attrs:
                if ns == R.XML:
                    k = "xml:" + k
                elif ns == R.XMLNS:
                    k = k if k == "xmlns" else "xmlns:" + k
                elif ns == R.XLINK:
                    k = "xlink:" + k
                elif ns and pre:
                    k = pre + ":" + k
                o.append(" " + k + '="' + esc(v, True) + '"')
            o.append(">")
            if c.ns == R.HTML and c.name in VOID:
                continue
            o.append(ser(c) + "</" + q + ">")
        elif c.kind == "T":
            o.append(c.data if n.kind == "E" and n.ns == R.HTML and n.name in RAWP else esc(c.data))
        elif c.kind == "C":
            o.append("<!--" + c.data + "-->")
        elif c.kind == "I":
            o.append("<?" + c.name + " " + c.data + ">")
        else:
            o.append("<!DOCTYPE " + c.name + ">")
    return "".join(o)


def pre(n, v):
    v.append(n)
    for c in n.ch:
        pre(c, v)
    return v


STEXT = ["x", "<", ">", "&", "\xa0", '"', "&amp;", "\u3042", "\U0001f600", "<!--", "\n", "'", "\x00", "]]>", "\u00a1", "\u0100\u20a0"]
SNAME = ["br", "img", "frame", "keygen", "bgsound", "basefont", "wbr", "script", "style", "xmp", "iframe", "noembed", "noframes", "plaintext", "noscript", "textarea", "pre", "listing", "p", "div", "title", "template", "x-y", "svg", "title", "TR", "image", "source", "track", "param", "param2", "col"]


def built(r):
    root = R.Node(r.choice("9FEE"), r.choice(SNAME), r.choice([R.HTML] * 4 + [R.SVG, R.MATHML, "", R.XML]))
    root.attrs = []
    nodes = [(0, root)]
    txt = lambda: "".join(r.choice(STEXT) for _ in range(r.randrange(0, 5)))

    def fill(p, d):
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            if len(nodes) > 25:
                return
            k = r.random()
            c = R.Node("T" if k < .25 and p.kind != "9" else "C" if k < .35 else "I" if k < .4 else "D" if k < .45 and d == 1 else "E", data=txt())
            c.name = r.choice(SNAME)
            if c.kind == "E":
                c.ns = NSI[r.choice([1] * 8 + [0, 2, 3, 4, 5])]
                c.pub = r.choice(["", "", "p", "svg"])
                for _ in range(r.choice([0, 0, 1, 2])):
                    c.attrs.append([NSI[r.choice([0, 0, 0, 0, 4, 5, 6, 1])], r.choice(["", "", "a", "xl"]), r.choice(["href", "xmlns", "lang", "\u00e9", "id", "xlink", "viewBox"]), txt()])
            p.append(c)
            nodes.append((d, c))
            if c.kind == "E":
                fill(c, d + 1)
    fill(root, 1)
    if r.random() < .01:   # one deep branch
        d, p = 1, root
        for _ in range(r.choice([40, 70, 300])):
            c = R.Node("E", data="")
            c.name, c.ns, c.pub = r.choice(["p", "div", "svg", "script"]), NSI[r.choice([1, 1, 1, 3])], ""
            p.append(c)
            nodes.append((d, c))
            p, d = c, d + 1
            if r.random() < .1:
                v = R.Node("E", data="")
                v.name, v.ns, v.pub = r.choice(SNAME), NSI[1], ""
                p.append(v)
                nodes.append((d, v))
    return nodes


def names(kind):
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "names.inc")) as f:
        return sorted(set(re.findall(r'^%s\(\w+, "([^"]*)"\)' % kind, f.read(), re.M)))


def each_name():
    """Every name the library knows, as element in each namespace with text and as attribute in each namespace."""
    o = []
    T, A = names("T"), names("A")
    for i in (0, 1, 2, 3, 5):
        for k in range(0, len(T), 12):
            root = R.Node("F", "", R.HTML)
            root.attrs = []
            nodes = [(0, root)]
            for n in T[k:k + 12]:
                c = R.Node("E", data="")
                c.name, c.ns, c.pub = n, NSI[i], ""
                root.append(c)
                t = R.Node("T", data="<&>\xa0")
                c.append(t)
                nodes += [(1, c), (2, t)]
            o.append(nodes)
    for i in (0, 1, 2, 3, 4, 5, 6):
        for k in range(0, len(A), 12):
            root = R.Node("F", "", R.HTML)
            root.attrs = []
            c = R.Node("E", data="")
            c.name, c.ns, c.pub = "p", R.HTML, ""
            c.attrs = [[NSI[i], x, n, "<&>\xa0\""] for n in A[k:k + 12] for x in ("", "q")]
            root.append(c)
            o.append([(0, root), (1, c)])
    return o


def node2(d, n):
    i = NSI.index(n.ns) if n.kind == "E" else 0
    h = lambda s: hx(s) or "."
    return "%d:%s:%d:%s:%s:%s" % (d, n.kind, i, h(n.name if n.kind == "I" else n.pub if n.kind == "E" else ""), h(n.data if n.kind in "TCI" else n.name), "&".join("%d=%s=%s=%s" % (NSI.index(a[0]), h(a[1]), h(a[2]), h(a[3])) for a in n.attrs))


def line2(c):
    if "text" in c:
        return "S %d %d %d %s" % (c["tree"], c["out"], c["node"], hx(c["text"]) or ".")
    return "B %d %d %d %s" % (c["tree"], c["out"], c["node"], ";".join(node2(d, n) for d, n in c["nodes"]))


def expect2(cases):
    out = []
    for c in cases:
        v = pre(R.parse(c["text"], False).doc if "text" in c else c["nodes"][0][1], [])
        out.append(hx(ser(v[c["node"] % len(v)])))
    return out


def sig2(c, got, want):
    g, w = bytes.fromhex(got).decode("utf-8", "replace"), bytes.fromhex(want).decode("utf-8", "replace")
    i = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
    return "serialized text differs: %r instead of %r" % (g[i:i + 1], w[i:i + 1])


def H02(c, tier, r):
    c.rule = "One case is one tree (parsed from a text or put together node by node), one node of it and one output type; distinct by content and serialized text."
    cases = []
    for _ in range(80000 if tier == "quick" else 1500000):
        k = dict(tree=r.choice([1, 2, 4]), out=r.choice([1, 2, 4]), node=0 if r.random() < .5 else r.randrange(100))
        if r.random() < .4:
            k["text"] = text(r)
        else:
            k["nodes"] = built(r)
        cases.append(k)
    for n in each_name():
        cases.append(dict(tree=r.choice([1, 2, 4]), out=r.choice([1, 2, 4]), node=0, nodes=n))
    compare(c, binary(), cases, line2, expect2, sig2, tier, show=line2, dec=dec)


# H04 make_document -------------------------------------------------------------------------------------------------

def label(s):
    return LABEL.get(R.alow(s.strip("\t\n\f\r ")))


def decode(enc, b):
    return "".join(map(chr, X.decode(enc, b)))


def stream(b, enc, conf):
    """The text the parser sees: a byte order mark decides; else the encoding given, unless it is tentative and a meta element names another."""
    e, n = X.sniff(b)
    if e:
        return decode(e, b[n:])
    s = decode(enc, b)
    if conf == "T":
        e = meta(s, enc)
        if e and e != enc:
            return decode(e, b)
    return s


def meta(text, enc):
    """The encoding a meta element asks for, seen while parsing."""
    b = R.Builder(False)
    found = []

    def seen(t):
        if found:
            return
        e = None
        if t.get("charset") is not None:
            e = label(t.get("charset"))
        if e is None and t.get("http-equiv") is not None and R.alow(t.get("http-equiv")) == "content-type" and t.get("content") is not None:
            e = extract(t.get("content"))
        if e is None:
            return
        if enc in ("utf-16be", "utf-16le"):
            found.append(enc)
            return
        if e in ("utf-16be", "utf-16le"):
            e = "utf-8"
        if e == "x-user-defined":
            e = "windows-1252"
        found.append(e)
    b.on_meta = seen
    R.Tokenizer(text, b).run()
    return found[0] if found else None


def extract(s):
    s = R.alow(s)
    p = 0
    while True:
        p = s.find("charset", p)
        if p < 0:
            return None
        p += 7
        while p < len(s) and s[p] in "\t\n\f\r ":
            p += 1
        if p < len(s) and s[p] == "=":
            break
    p += 1
    while p < len(s) and s[p] in "\t\n\f\r ":
        p += 1
    if p >= len(s):
        return None
    if s[p] in "'\"":
        q = s.find(s[p], p + 1)
        return label(s[p + 1:q]) if q >= 0 else None
    q = p
    while q < len(s) and s[q] not in "\t\n\f\r ;":
        q += 1
    return label(s[p:q])


ENCS = list(LABELS)   # in the order of encoding_name
COMMON = ["utf-8", "shift_jis", "euc-jp", "windows-1252", "iso-2022-jp", "koi8-r", "gbk", "big5", "utf-16le", "utf-16be", "x-user-defined", "replacement", "euc-kr"]
BODY = ["\u65e5\u672c", "caf\u00e9", "\u043f\u0440", "x", "\u4e2d", "\uac00", "<p>y", "&amp;", "\U0001f600", "<title>\u3042</title>", "z\r\n", "&#x3042;"]


def a_meta(r):
    e = r.choice(COMMON) if r.random() < .7 else r.choice(sorted(LABEL))
    if e in LABELS and r.random() < .4:
        e = r.choice(LABELS[e].split())
    if r.random() < .2:
        e = r.choice([e.upper(), " " + e + " ", e + "x", "", "bogus", "\n" + e])
    k = r.random()
    if k < .5:
        return "<meta charset=" + r.choice(["'%s'", '"%s"', "'%s'"]) % e + r.choice([">", "/>", " x=y>"])
    ct = r.choice(["text/html; charset=%s", "text/html;charset='%s'", "charset %s charset = %s", "text/html; charset=%s; x", "charset=&quot;%s", "CHARSET=%s", "charset", "charset=", "charsetcharset=%s", "text/html; char=%s"]).replace("%s", e)
    q = '"' if "'" in ct else "'"
    at = ["http-equiv=" + r.choice(["content-type", "Content-Type", "refresh", "CONTENT-TYPE"]), "content=" + q + ct + q]
    if r.random() < .1:
        at.append("charset=" + r.choice(["bogus", "koi8-r"]))
    r.shuffle(at)
    return "<meta " + " ".join(at) + ">"


def doc4(r):
    o = r.choice(["", "<!DOCTYPE html>", "<html>", "<head>", "<!-- c -->", "<p>", "<title>\u3042</title>", "<script>'<meta charset=koi8-r>'</script>", "<body>", "<noscript>", "<template>", "<table>", "<svg>", "&not", "<select>", "<frameset>"])
    for _ in range(r.randrange(1, 5)):
        o += a_meta(r) if r.random() < .55 else r.choice(BODY)
    return o + "".join(r.choice(BODY) for _ in range(r.randrange(0, 4)))


def case4(r):
    k = r.random()
    if k < .25:
        s = text(r) if r.random() < .6 else doc4(r)
        return dict(how=r.choice("24"), enc="utf-8", conf="T", bytes=s.encode())
    enc = r.choice(COMMON) if r.random() < .8 else r.choice(ENCS)
    true = enc if r.random() < .5 else r.choice(COMMON)
    s = doc4(r) if r.random() < .8 else text(r)
    try:
        if true in ("replacement", "x-user-defined"):
            b = s.encode("latin-1", "replace")
        else:
            b = s.encode({"windows-1252": "cp1252", "shift_jis": "cp932", "euc-kr": "cp949", "x-mac-cyrillic": "mac_cyrillic", "macintosh": "mac_roman", "windows-874": "cp874", "iso-8859-8-i": "iso-8859-8"}.get(true, true), "replace")
    except LookupError:
        b = s.encode("latin-1", "replace")
    k = r.random()
    if k < .12:
        b = r.choice([b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\xef\xbb", b"\xef\xbb\xbf\xef\xbb\xbf", b"\xff", b"\xfe\xff\xfe\xff"]) + b
    elif k < .3:
        for _ in range(r.randrange(1, 4)):
            p = r.randrange(len(b) + 1)
            b = b[:p] + bytes([r.choice([r.randrange(256), 0x80, 0xFF, 0xE3, 0x1B, 0x81])]) + b[p + r.randrange(2):]
    elif k < .36:
        b = b[:r.randrange(len(b) + 1)]
    elif k < .38:
        b = bytes(r.randrange(256) for _ in range(r.randrange(0, 40)))
    how = r.choice("ccccdll")
    return dict(how=how, enc="utf-8" if how == "d" else enc, conf="T" if how == "d" else r.choice("TTTTCCI"), bytes=b)


def line4(c):
    return "%s %d %s %s" % (c["how"], ENCS.index(c["enc"]) + 1, c["conf"], c["bytes"].hex() or ".")


def expect4(cases):
    out = []
    for c in cases:
        s = c["bytes"].decode() if c["how"] in "24" else stream(c["bytes"], c["enc"], c["conf"])
        out.append(hx(render(R.parse(s, False), False)))
    return out


def sig4(c, got, want):
    return "make_document from %s: %s" % ({"2": "UTF-16", "4": "UTF-32"}.get(c["how"], "bytes"), sig1(c, got, want))


def H04(c, tier, r):
    c.rule = "One case is one input (bytes with an encoding and confidence, UTF-16 or UTF-32 text) given to make_document; distinct by content and resulting tree."
    cases = [case4(r) for _ in range(120000 if tier == "quick" else 2000000)]
    for k in cases:
        c.count("input.bytes" if k["how"] in "cdl" else "input.text")
    exe = Build().binary("html_doc", "html_doc.cpp", libs=("encoding", "url", "html"), link=ICU)
    compare(c, exe, cases, line4, expect4, sig4, tier, show=repr, dec=dec)


def binary():
    return Build().binary("html", "html.cpp", libs=("encoding", "url", "html"), link=ICU)


def check(prop, tier):
    c = Check(prop, tier)
    c.assumptions = ["g++ 13 with AddressSanitizer and UndefinedBehaviorSanitizer, library and libstdc++ assertions on",
                     "vf/html_ref.py, a parser written from the HTML Standard (2020, scripting disabled), which agrees with the 1541 document cases of html5lib-tests that predate the customizable select element (with the CDATA and </p> differences of the library switched off)"]
    r = random.Random(SEED * 911 + ord(prop[2]))
    {"H01": H01, "H02": H02, "H04": H04}[prop](c, tier, r)
    return c.finish()
