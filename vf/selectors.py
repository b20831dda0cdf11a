"""Q01 selectors: parsing and matching against a DOM."""
import random
from .core import *
from . import sel_ref as R

NS = ["", "http://www.w3.org/1999/xhtml", "http://www.w3.org/1998/Math/MathML", "http://www.w3.org/2000/svg", "http://www.w3.org/1999/xlink", "http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/"]
TAGS = ["div", "p", "a", "span", "ul", "li", "x-y", "DIV", "em", "\u00e9l", "svg", "html"]
ATTRS = ["id", "class", "title", "href", "lang", "data-x", "Title", "CLASS", "ID", "h\u00e9"]
WORDS = ["a", "b", "A", "ab", "a-b", "en", "en-US", "EN", "x", "\u3042", "\u00c9", "\u00e9", "ba", "-", "a.b", "[", "\u212a", "k", "K"]


def val(r):
    k = r.random()
    if k < .1:
        return ""
    if k < .5:
        return r.choice(WORDS)
    if k < .9:
        return "".join(r.choice(WORDS) + r.choice([" ", " ", "\t", "\n", "  ", "\f", "\r", "\u00a0", "\x0b", "-"]) for _ in range(r.randrange(1, 4))) + r.choice(["", r.choice(WORDS)])
    return r.choice([" ", "  a", "\na\n", "a  b", "\u00a0a"])


def dom(r):
    xml = r.random() < .2
    d = {"type": "X" if xml else "H", "mode": "N" if xml else r.choice("NNLQQ"), "nodes": [dict(kind="9", parent=None, depth=0)]}
    n = d["nodes"]
    tags = r.sample(TAGS[:-1], r.randrange(2, 6))

    def attrs():
        out = []
        for a in r.sample(ATTRS, r.choice([0, 0, 1, 1, 2, 3])):
            if any(R.low(a) == R.low(x[2]) for x in out):
                continue
            out.append((0, "", a, val(r)))
            if a in ("href", "title", "lang") and r.random() < .3:
                ns = r.choice([4, 4, 5])
                o = (ns, "xlink" if ns == 4 else "xml", a, val(r))
                out.append(o) if r.random() < .5 else out.insert(0, o)
        return out

    def fill(p, depth):
        for _ in range(r.choice([0, 1, 1, 2, 3, 4]) if depth > 1 else r.choice([1, 2, 3, 4])):
            if len(n) > 24:
                return
            k = r.random()
            if k < .12:
                n.append(dict(kind="T", parent=p, depth=depth, name=r.choice(WORDS)))
            elif k < .2:
                n.append(dict(kind="C", parent=p, depth=depth, name=r.choice(WORDS)))
            else:
                n.append(dict(kind="E", parent=p, depth=depth, nsi=r.choice([1] * 8 + [0, 2, 3, 3]), name=r.choice(tags), attrs=attrs()))
                if depth < 7:
                    fill(len(n) - 1, depth + 1)

    if r.random() < .03:
        return d
    if r.random() < .5:
        n.append(dict(kind="D", parent=0, depth=1, name="html"))
    if r.random() < .2:
        n.append(dict(kind="C", parent=0, depth=1, name="c"))
    n.append(dict(kind="E", parent=0, depth=1, nsi=1, name="html", attrs=attrs()))
    fill(len(n) - 1, 2)
    if r.random() < .2:
        n.append(dict(kind="C", parent=0, depth=1, name="z"))
    for x in n:
        if x["kind"] == "E":
            x["ns"] = NS[x["nsi"]]
    return d


def esc(r, s):
    o = ""
    for i, c in enumerate(s):
        if c.isalnum() and not (i == 0 and c.isdigit()) or ord(c) >= 0x80 or (c == "-" and i and not s[0] == "-") or c == "_":
            o += "\\%x " % ord(c) if r.random() < .03 else c
        else:
            o += "\\" + c if c not in "\n\r\f0123456789abcdefABCDEF" else "\\%x " % ord(c)
    return o


def case(r, s):
    k = r.random()
    return s if k < .75 else s.upper() if k < .85 else s.lower() if k < .95 else s.swapcase()


def quote(r, s):
    q = r.choice("'\"")
    return q + "".join("\\" + c if c in q + "\\" else "\\%x " % ord(c) if c in "\n\r\f" else c for c in s) + q


def part(r, pool):
    v = r.choice(pool)
    k = r.random()
    if not v or k < .5:
        return v
    a = r.randrange(len(v))
    return v[a:a + r.randrange(1, len(v) - a + 1)]


def simple(r, d, ns):
    els = [x for x in d["nodes"] if x["kind"] == "E"] or [dict(name="p", attrs=[])]
    e = r.choice(els)
    k = r.random()
    pool = [a[3] for a in e["attrs"]] + [a[3] for a in r.choice(els)["attrs"]] + [""]
    if k < .32:
        return esc(r, case(r, next((w for w in [part(r, R.words(" ".join(pool)) or ["a"])] if w), "a"))) and ("." + esc(r, case(r, r.choice(R.words(" ".join(pool)) or ["a"]))))
    if k < .45:
        return "#" + (esc(r, case(r, r.choice([p for p in pool if p] or ["a"]))) if r.random() < .95 else "1a")
    if k < .52:
        return r.choice([":root", ":ROOT", ":root", ":foo", ":hover", "::before", ":After", ":nth-child(2n+1)", ":not(p)", "::foo", ":first-line", ":", "::", ":::before", ":1", "::bar(x)"])
    name = esc(r, case(r, r.choice([a[2] for a in e["attrs"]] or ATTRS)))
    pre = "" if r.random() < .8 else r.choice(["*|", "|", "s|", "l|", "q|", "h|"])
    if r.random() < .2:
        body = name
    else:
        op = r.choice(["=", "=", "~=", "|=", "^=", "$=", "*=", "*="])
        v = part(r, pool) if op in "^=$=*=" else r.choice(pool + R.words(" ".join(pool)) + [p.split("-")[0] for p in pool])
        v = case(r, v)
        body = name + r.choice(["", "", " "]) + op + r.choice(["", "", " "]) + (quote(r, v) if not v or r.random() < .7 else esc(r, v)) + r.choice(["", "", "", " i", " I", "i", " s", " S", " x", " i i", " i s", "1"][:r.choice([8, 9, 12])])
    return "[" + r.choice(["", "", " "]) + pre + body + r.choice(["", "", " "]) + "]"


def compound(r, d, ns):
    els = [x for x in d["nodes"] if x["kind"] == "E"] or [dict(name="p", attrs=[])]
    o = ""
    k = r.random()
    if k < .5:
        o = r.choice(["", "", "", "", "", "", "*|", "|", "s|", "h|", "m|", "q|"]) + (esc(r, case(r, r.choice(els)["name"])) if r.random() < .8 else "*")
    elif k < .6:
        o = "*"
    for _ in range(r.choice([0, 0, 1, 1, 2] if o else [1, 1, 2])):
        o += simple(r, d, ns)
    return o


def aimed(r, d, ns, i):
    """A compound selector that the element meets, or misses narrowly."""
    e = d["nodes"][i]
    o = ""
    pre = lambda nsi: r.choice([""] * 6 + ["*|", {1: "h|", 3: "s|", 4: "l|", 0: "|"}.get(nsi, "*|")]) if ns else r.choice([""] * 9 + ["*|"])
    if r.random() < .6:
        o = pre(e["nsi"]) + (esc(r, case(r, e["name"])) if r.random() < .8 else "*")
    for _ in range(r.choice([0, 1, 1, 2] if o else [1, 1, 2])):
        if r.random() < .06 or not e["attrs"]:
            o += simple(r, d, ns) if r.random() < .3 or not o and r.random() < .6 else "" if o else "*"
            continue
        nsi, _, name, v = r.choice(e["attrs"])
        if nsi == 0 and R.low(name) == "class" and R.words(v) and r.random() < .7:
            o += "." + esc(r, case(r, r.choice(R.words(v))))
        elif nsi == 0 and R.low(name) == "id" and v and r.random() < .7:
            o += "#" + esc(r, case(r, v))
        else:
            op = r.choice(["", "=", "~=", "|=", "^=", "$=", "*="])
            w = v
            if op == "~=":
                w = r.choice(R.words(v) or [""])
            elif op == "|=":
                w = v.split("-")[0] if r.random() < .6 else v[:v.rfind("-")] if "-" in v else v
            elif op == "^=":
                w = v[:r.randrange(len(v) + 1)]
            elif op == "$=":
                w = v[r.randrange(len(v) + 1):]
            elif op == "*=":
                a = r.randrange(len(v) + 1)
                w = v[a:a + r.randrange(len(v) - a + 1)]
            if r.random() < .1:
                w += r.choice(["a", "-", " "])
            w = case(r, w)
            n2 = esc(r, case(r, name))
            o += "[" + r.choice(["", "", " "]) + (pre(nsi) if nsi == 0 else r.choice(["*|", "l|" if ns else "*|"])) + n2 + (op + (quote(r, w) if not w or r.random() < .7 else esc(r, w)) + r.choice(["", "", " i", " s", "i", " I "]) if op else "") + "]"
    if e["name"] == "html" and e["parent"] == 0 and r.random() < .3:
        o += r.choice([":root", ":RooT"])
    return o or "*"


def chain(r, d, ns, start):
    els = [i for i, x in enumerate(d["nodes"]) if x["kind"] == "E"]
    if not els:
        return compound(r, d, ns)
    i = r.choice(els)
    s = aimed(r, d, ns, i)
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        e = d["nodes"][i]
        up = []
        p = e["parent"]
        while p:
            up.append(p)
            p = d["nodes"][p]["parent"]
        sib = [j for j in range(i - 1, -1, -1) if d["nodes"][j]["parent"] == e["parent"] and d["nodes"][j]["kind"] == "E"]
        opts = []
        if up:
            opts += [(" ", r.choice(up)), (">", up[0]), (">", r.choice(up))]
        if sib:
            opts += [("~", r.choice(sib)), ("+", sib[0]), ("+", r.choice(sib))]
        if not opts:
            break
        c, i = r.choice(opts)
        s = aimed(r, d, ns, i) + (r.choice([" ", "  ", "\n", " /**/"]) if c == " " else r.choice(["", " "]) + c + r.choice(["", " "])) + s
    return s


def selector(r, d, ns):
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if r.random() < .7:
            out.append(chain(r, d, ns, 0))
            continue
        s = compound(r, d, ns)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            s += r.choice([" ", " ", "  ", ">", " > ", "+", " + ", "~", " ~ ", "\n", "/**/ ", ">\t", "||"][:r.choice([9, 9, 9, 13])]) + compound(r, d, ns)
        out.append(s)
    s = r.choice([",", ", ", " , "]).join(out)
    k = r.random()
    if k < .12:
        p = r.randrange(len(s) + 1)
        s = s[:p] + r.choice([" ", ",", ">", "+", "~", "*", "|", "||", ".", "#", "[", "]", ":", "(", ")", "{", "}", "!", "1", "a", "=", "/**/", "\\", "'", "/*", "@x", ";", "&"]) + s[p:]
    elif k < .17 and s:
        p = r.randrange(len(s))
        s = s[:p] + s[p + 1:]
    elif k < .27:
        s = r.choice(["", " ", "\n", "> ", ", "]) + s + r.choice(["", " ", "  ", " >", " +", ",", " ,", " !", " a|", "/**/", "\t"])
    return s


def gen(r, n):
    out = []
    while len(out) < n:
        d = dom(r)
        for _ in range(6):
            ns = None
            if r.random() < .35:
                ns = {"s": NS[3], "l": NS[4], "h": NS[1]} if r.random() < .8 else {}
                if r.random() < .3:
                    ns[""] = r.choice([NS[1], NS[3], "", "urn:x"])
                if r.random() < .3:
                    ns["title"] = NS[5]
                if r.random() < .1:
                    ns["m"] = "urn:none"
            start = 0 if r.random() < .6 else r.randrange(len(d["nodes"]))
            if ns is not None and r.random() < .4:
                start = None
            out.append((d, start, selector(r, d, ns), ns))
    return out[:n]


def hx(s):
    return s.encode("utf-8", "surrogatepass").hex()


def line(c):
    d, start, sel, ns = c
    ls = []
    for x in d["nodes"]:
        if x["kind"] == "9":
            ls.append("0:9")
        elif x["kind"] == "E":
            ls.append("%d:E:%d:%s:%s" % (x["depth"], x["nsi"], hx(x["name"]), "&".join("%d=%s=%s=%s" % (a[0], hx(a[1]) or ".", hx(a[2]), hx(a[3]) or ".") for a in x["attrs"])))
        else:
            ls.append("%d:%s:0:%s" % (x["depth"], x["kind"], hx(x["name"])))
    return " ".join([d["type"], d["mode"], ";".join(ls), "-1" if start is None else str(start), hx(sel) or ".", "-" if ns is None else "&".join("%s=%s" % (hx(k) or ".", hx(v) or ".") for k, v in ns.items()) or "!"])


def doc(d):
    return {"type": d["type"], "mode": d["mode"], "nodes": [dict(x, attrs=[(NS[a[0]], a[1], a[2], a[3]) for a in x.get("attrs", [])]) for x in d["nodes"]]}


def expect(cases, exact=False):
    out = []
    for d, start, sel, ns in cases:
        ast = R.parse(sel, ns or {})
        m = R.M(doc(d), ns or {}, exact).query(ast, start)
        out.append("".join("%d " % i for i in m) + "first=" + ("-" if ns is not None else str(m[0]) if m else "null"))
    return out


def sig(c, got, want):
    d, start, sel, ns = c
    ast = R.parse(sel, ns or {})
    if ast is None:
        return "an invalid selector matched"
    kinds = set()
    for s in ast:
        for x in s:
            if isinstance(x, str):
                kinds.add("combinator" + x)
            else:
                for y in x:
                    kinds.add(y[0] + (str(y[2] or "") + str(y[4] or "") if y[0] == "attr" else ""))
    return "wrong nodes for a selector using " + ",".join(sorted(kinds))[:80]


CANARY = ({"type": "H", "mode": "N", "nodes": [dict(kind="9", parent=None, depth=0), dict(kind="E", parent=0, depth=1, nsi=1, ns=NS[1], name="html", attrs=[(0, "", "lang", "en")])]}, 0, "[lang|=en]", None)


PRODUCTIONS = ["combinator", "ns_prefix", "wq_name", "id_selector", "class_selector", "attr_matcher", "attr_modifier", "pseudo_class_selector",
               "pseudo_element_selector", "attribute_selector", "subclass_selector", "type_selector", "simple_selector", "compound_selector",
               "complex_selector", "relative_selector", "relative_selector_list", "simple_selector_list", "compound_selector_list",
               "complex_selector_list", "selector_list"]
PIECES = ["a", "b", "A", "*", "|", "||", "#a", "#1", ".a", ".", ":", "::", ":root", ":before", "::After", "::first-line", ":f(x)", "::part(a b)", "::part(", "[a]", "[a=b]", "[ s|a ~= 'x' i ]",
          "[*|a|=b s]", "[|a^='']", "[a$=b x]", "[q|a]", "[", "]", "(a)", "{}", "=", "~=", "|=", "^=", "$=", "*=", "i", "s", "I", "S", ">", "+", "~", ",", " ", " ", "/**/", "\n", "1", "s|", "q|", "l|b", "'x'",
          "\\*", "\\2a |x", "-->", "u", "url(a)", "@x", "\u3042", "!", "\\"]


def gen2(r, n):
    out = []
    docs = [dom(r) for _ in range(40)]
    while len(out) < n:
        ns = {"s": NS[3], "l": NS[4]} if r.random() < .8 else {}
        if r.random() < .2:
            ns[""] = NS[1]
        d = r.choice(docs)
        k = r.random()
        if k < .3:
            s, prods = "".join(r.choice(PIECES) for _ in range(r.randrange(0, 6))), PRODUCTIONS
        elif k < .45:
            s, prods = simple(r, d, ns), PRODUCTIONS[3:]
        elif k < .6:
            s, prods = compound(r, d, ns), PRODUCTIONS[10:]
        elif k < .7:
            s, prods = r.choice([",", ", ", " , ", "\n,"]).join((simple if r.random() < .5 else compound)(r, d, ns) for _ in range(r.randrange(1, 5))), PRODUCTIONS[10:]
        else:
            s, prods = selector(r, d, ns), PRODUCTIONS[13:]
            if r.random() < .4:
                s = r.choice([">", "+", "~", "||", "> ", "+\n", " ~ "]) + s
                prods = ["relative_selector", "relative_selector_list"] + [r.choice(prods)]
        if r.random() < .15:
            s = r.choice([" ", "\n", "/**/"]) + s + r.choice(["", " ", "/**/", "\t"])
        out.append((r.choice(prods), r.choice([0, 0, 1, 2]), s, ns))
    return out


def line2(x):
    p, route, s, ns = x
    return "%s %d %s %s" % (p, route, hx(s) or ".", "&".join("%s=%s" % (hx(k) or ".", hx(v)) for k, v in ns.items()) or "!")


def expect2(cases):
    return [R.grammar(s, ns, p, route == 2) for p, route, s, ns in cases]


def check2(c, tier):
    c.rule = "One case is one text, one production of the selector grammar, one set of namespace prefixes and one way of giving the text; distinct by content."
    c.assumptions = ["g++ 13 with AddressSanitizer and UndefinedBehaviorSanitizer, library and libstdc++ assertions on",
                     "vf/sel_ref.py, class Grammar, written from the grammar of Selectors Level 4; the tokens come from the reference tokenizer of CSS Syntax"]
    exe = Build().binary("sel_grammar", "sel_grammar.cpp", libs=("encoding", "url", "html", "css", "selectors"), link=ICU)
    r = random.Random(SEED * 73 + 9)
    cases = gen2(r, 120000 if tier == "quick" else 1500000)
    want = expect2(cases[:20000])
    for x, w in zip(cases, want):
        c.count("first20000.%s.%s" % (x[0], "refused" if "fail" in w else "read"))
    compare(c, exe, cases, line2, expect2, lambda x, got, w: "%s: %s" % (x[0], "refused" if "fail" in got and "fail" not in w else "accepted" if "fail" in w and "fail" not in got else "other parts"), tier,
            show=lambda x: "%s of %r (route %d), prefixes %r" % (x[0], x[2], x[1], x[3]))
    return c.finish()


def check(prop, tier):
    c = Check(prop, tier)
    if prop == "Q02":
        return check2(c, tier)
    c.rule = "One case is one document, one node to search from and one selector; distinct by content and the list of matched nodes."
    c.assumptions = ["g++ 13 with AddressSanitizer and UndefinedBehaviorSanitizer, library and libstdc++ assertions on",
                     "vf/sel_ref.py, written from Selectors Level 4 and the library's documented choices (an invalid selector and an unsupported pseudo-class or pseudo-element match nothing; names are ASCII case-insensitive in HTML documents)"]
    exe = Build().binary("selectors", "selectors.cpp", libs=("encoding", "url", "html", "css", "selectors"), link=ICU)
    r = random.Random(SEED * 71 + 5)
    cases = gen(r, 80000 if tier == "quick" else 1000000)
    for d, start, sel, ns in cases:
        ast = R.parse(sel, ns or {})
        c.count("selectors.valid" if ast is not None else "selectors.invalid")
    compare(c, exe, cases, line, expect, sig, tier, show=lambda x: "selector %r on node %s of %s, namespaces %r" % (x[2], x[1], line(x).split(" ")[2][:300], x[3]))
    # The library and its own tests take [a|=v] not to match the value v itself: one listed finding, kept apart from the rest.
    compare(c, exe, [CANARY], line, lambda cs: expect(cs, True), lambda *a: "[a|=v] does not match the exact value", tier, label="known")
    return c.finish()
