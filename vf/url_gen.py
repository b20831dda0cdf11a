"""Generators of URL strings, setter values and host strings."""

SCHEMES = ["http", "https", "ftp", "ws", "wss", "file", "HTTP", "File", "a", "data", "mailto", "web+demo", "blob", "x-y.z1", "javascript", "1a", "h ttp", ""]
HOSTS = ["example.com", "EXAMPLE.com", "a", "localhost", "a.b.c", "ex%41mple", "127.0.0.1", "127.1", "0x7f.1", "0", "256", "1.2.3.4.5", "0300.0250.1.2", "4294967295", "4294967296", "256.1", "1.2.3.", "0x", "0x.0x.0", "1.0x", "09.1", "18446744073709551617", "0xffffffff", "0x100000000", "00000000000000000000000000000000000017700000001",
         "[::1]", "[1:2:3:4:5:6:7:8]", "[::ffff:1.2.3.4]", "[1::8]", "[0:0:1:0:0:0:1:0]", "[1:0:0:2:0:0:0:3]", "[::]", "[:]", "[1", "[::1%eth0]", "[1:2]", "[::1.2.3]", "[FE80::ABCD]",
         "", "b\u00fccher.de", "\u65e5\u672c\u8a9e", "\uff45\uff58.com", "fa\u00df.de", "\u043f\u0440\u0438\u043c\u0435\u0440", "a\u3002b", "a_b", "-a-", "a..b", ".", "..", "%00", "%2f", "a%20b", "a b", "%E6%97%A5", "%ff", "a%", "%zz", "a!b$c&d'e(f)g*h+i,j;k=l~m", "C|", "C:", "c:", "xn--wgv71a119e"]
SEGS = ["", ".", "..", "%2e", "%2E%2e", ".%2E", "%2e.", "a", "b", "foo", "C:", "c|", "d|", "...", "%", "%4", "%41", "a b", "\u00e9", "\U0001f600", "{x}", "`", "\"", "<>", "'", "~", "|", ":", "@", ";p=1", "a:b", "\x01", "\x7f", "\\", "[", "]", "a\\b"]
QS = ["", "q", "a=1&b=2", "?", "'", "\"<>", "#".replace("#", ""), "\u00e9", "%", "%zz", " ", "{}|`^", "/..", "\x00", "\U0001f600"]
FR = ["", "f", "#", "?", "\u00e9", "<\"`>", " ", "%", "^{}|", "\x00", "'"]
CHARS = list("abcXYZ019:/\\?#@[]%.|+-~^ \t\n\r'\"<>`{}&=;,!$*()_") + ["\u00e9", "\u3042", "\x00", "\x1f", "\x7f"]
PORTS = ["", "80", "443", "21", "0", "8080", "65535", "65536", "99999", "000080", "0000000000000000000000443", "4294967376", "18446744073709551696", "80a", "a", "-1", " 80"]
USERS = ["", "u", "u:p", ":p", "u:", "u:p:q", "u@v", "u%40", "\u00e9:\u00e9", "a b", "[]^|", "{}", "u/v", ";=", "'"]


def mutate(r, s):
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, 4])):
        k = r.randrange(4)
        i = r.randrange(len(s) + 1)
        if k == 0:
            s = s[:i] + r.choice(CHARS) + s[i:]
        elif k == 1 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + s[i + 1:]
        elif k == 2 and s:
            j = min(len(s), i + r.randrange(1, 5))
            s = s[:j] + s[i:j] + s[j:]
        elif s:
            i = min(i, len(s) - 1)
            s = s[:i] + r.choice(CHARS) + s[i + 1:]
    return s


def ipv6(r):
    def piece():
        return "%x" % r.choice([0, 0, 0, 0, 1, 0xff, 0xabcd, r.randrange(65536)])
    n = r.choice([8, 8, 8, 8, 7, 6, 3, 9, r.randrange(1, 10)])
    ps = [piece() for _ in range(n)]
    if r.random() < .25:
        k = min(len(ps), 2)
        ps[-k:] = [".".join(str(r.choice([0, 1, 9, 255, 256, "01", r.randrange(256)])) for _ in range(r.choice([4, 4, 4, 3, 5])))]
    s = ":".join(ps)
    if r.random() < .5:
        i = r.randrange(len(ps) + 1)
        w = r.choice([0, 1, 2, 3])
        s = ":".join(ps[:i]) + "::" + ":".join(ps[i + w:])
    if r.random() < .1:
        s = mutate(r, s)
    if r.random() < .2:
        s = s.upper()
    return s


def ipv4(r):
    def num():
        v = r.choice([0, 1, 7, 8, 9, 255, 256, 65535, 65536, 0xffffff, 0xffffffff, 0x100000000, r.randrange(256), r.randrange(256), r.randrange(2 ** 33), 2 ** 64 + r.randrange(300)])
        f = r.randrange(6)
        if f == 0:
            return "0x%x" % v
        if f == 1:
            return "0%o" % v
        if f == 2:
            return "0X" + "0" * r.randrange(12) + "%X" % v
        if f == 3 and r.random() < .3:
            return r.choice(["0x", "08", "019", "0xg", "", "00", "0x0x1"])
        return str(v)
    n = r.choice([1, 2, 3, 4, 4, 4, 5])
    nums = []
    for i in range(n):
        x = num()
        if i + 1 < n and r.random() < .8:
            while not x or len(x) > 6:
                x = num()
        nums.append(x)
    return ".".join(nums) + r.choice(["", "", "", "", ".", ".."])


def disguise(r, s):
    """the same host to a parser that decodes and maps, other characters to one that does not"""
    o = []
    for c in s:
        k = r.random()
        if k < .15:
            c = c.upper() if len(c.upper()) == 1 else c
        elif k < .25 and ord(c) < 128:
            c = "%%%02x" % ord(c) if r.random() < .5 else "%%%02X" % ord(c)
        elif k < .3 and 0x21 <= ord(c) <= 0x7e and c not in "/?#@:[]\\%":
            c = chr(ord(c) + 0xfee0)
        elif k < .33:
            c += r.choice("\t\n\r") if r.random() < .5 else "\u00ad"
        o.append(c)
    return "".join(o)


def host(r):
    k = r.random()
    if k < .1:
        return disguise(r, r.choice(["localhost", "localhost", "127.0.0.1", "0x7f.1", "example.com", "c|", "c:", "a", ipv4(r), r.choice(HOSTS)]))
    if k < .6:
        return r.choice(HOSTS)
    if k < .75:
        return "[" + ipv6(r) + "]"
    if k < .9:
        return ipv4(r)
    return mutate(r, r.choice(HOSTS))


def path(r, sep=None):
    seps = sep or r.choice(["/", "/", "/", "\\", "/\\"])
    n = r.choice([0, 1, 1, 2, 3, 5])
    return "".join(r.choice(seps) + r.choice(SEGS) for _ in range(n))


def tail(r):
    s = ""
    if r.random() < .35:
        s += "?" + r.choice(QS)
    if r.random() < .35:
        s += "#" + r.choice(FR)
    return s


def absolute(r):
    sch = r.choice(SCHEMES) if r.random() < .5 else r.choice(["http", "https", "file", "a", "ws"])
    s = sch + ":"
    k = r.random()
    if k < .75:
        s += r.choice(["//", "//", "//", "//", "//", "/", "", "///", "\\\\", "/\\", "////"])
        if r.random() < .25:
            s += r.choice(USERS) + "@"
        s += host(r)
        if r.random() < .3:
            s += ":" + r.choice(PORTS)
        s += path(r)
    elif k < .9:
        s += r.choice(["", "/", "//", "///"]) + path(r)
    else:
        s += r.choice(["opaque", "a b", "x\u00e9", "%", "<>", "", " ", "\x01", "a/../b", "{}^|`"])
    return mutate(r, s + tail(r))


def relative(r):
    k = r.random()
    if k < .15:
        return r.choice(["", "#", "?", "#f", "?q", "?#", "/", "//", "\\", ".", "..", "///", "C|", "C:", "/C|/x", "//C:/x", "C|?", "c:#", ":", ":80", "//h", "\\\\h\\p", "//localhost/x", "//C|", "//c|/..", "/c:/.."])
    if k < .3:
        return mutate(r, "//" + host(r) + path(r) + tail(r))
    if k < .8:
        p = path(r)
        return mutate(r, (p if r.random() < .5 else p[1:]) + tail(r))
    return mutate(r, r.choice(SCHEMES) + ":" + path(r)[1:] + tail(r))


BASES = ["http://example.com/a/b/c?q#f", "http://u:p@h:8080/x/", "https://h", "file:///C:/a/b", "file:///a/b/c", "file://host/p/q", "file:///c:", "a:b", "a:/b/c", "a://h/p?q", "a://", "a:///p", "ws://h/a", "mailto:x", "data:,y?q#z", "a:/", "http://[::1]/", "ftp://1.2.3.4/d/"]

SETTERS = ["protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash", "href"]


def setter(r):
    n = r.choice(SETTERS)
    if n == "protocol":
        v = r.choice(["http", "https", "ftp", "file", "a", "b", "ws", "HTTPS:", "http:x", "", ":", "1", "a b", "web+x", "wss://h", "f\u00e9"])
    elif n in ("username", "password"):
        v = r.choice(["", "u", "a:b", "@", "/", "\u00e9", "%", "a b", "[]^|", "'", "\x00", "\n"])
    elif n in ("host", "hostname"):
        v = host(r)
        if r.random() < .3:
            v += ":" + r.choice(PORTS)
        if r.random() < .2:
            v += r.choice(["/", "/p", "?q", "#f", "\\x"])
    elif n == "port":
        v = r.choice(PORTS + ["80/x", "90#", "8\t0", "12\n3", "65535x"])
    elif n == "pathname":
        v = r.choice(["", "/", "?", "#", "a", "//", "/..", "/./x", "\\a\\b", "C|/x", "/C|/..", "%2e%2e/x", "a?b#c", "//p", "/.//p", "\n/x"]) if r.random() < .5 else path(r)
    elif n == "search":
        v = r.choice(["", "?", "??", "q", "?q=1", "#", "a#b", "'", "\u00e9", " ", "\n", "<>"])
    elif n == "hash":
        v = r.choice(["", "#", "##", "f", "#f", "\u00e9", " ", "`<>", "\n", "\x00"])
    else:
        v = absolute(r)
    if r.random() < .15:
        v = mutate(r, v)
    return n, v


SWEEP = list(range(0x180)) + [0x2028, 0x3002, 0x4e00, 0xd7ff, 0xe000, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xfeff, 0xff0e, 0xff61, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1fffd, 0x1fffe, 0x2ffff, 0xefffd, 0xf0000, 0x10fffd, 0x10ffff]
PLACES = ["%s", "%s:a", "a%sb:c", "a:%s", "a:b%sc", "a:/b%sc", "a:/%s/x", "a://h%si/p", "http://h%si/p", "http://%s/", "http:%s/h", "file:%s/h", "file:/%s/..", "file://h%si", "file:///%s|/x", "file:///%s:/..", "http://u%sv:w@h/", "http://u:p%sq@h/", "a://h:1%s", "http://h:%s1/", "http://h/p%sq", "http://h/%s../r", "http://h/?x%sy", "a:b?x%sy", "http://h/#x%sy", "a:b#x%sy", "%shttp://h/", "http://h/%s", "http://[::%s]/", "http://h%%4%s/", "http://h/%%%s1", "a:%%%s"]


def sweep():
    """every character of a set in every kind of place"""
    for p in PLACES:
        for c in SWEEP:
            yield p % chr(c), None, []
    for c in SWEEP[:0x80]:
        for b in ("http://h/a/b?q#f", "file:///C:/a/b", "a:b", "a://h/p"):
            for f in ("%s", "%s/x", "/%s/y", "x%sy", "%s:", "%s:x", "%s|/z", "/%s|", "//%s"):
                yield f % chr(c), b, []


def sweep_set():
    for n in SETTERS[:-1]:
        for c in SWEEP:
            for v in ("%s", "a%sb", "1%s"):
                yield ("http://u@h:8/p?q#f", "a://h/p", "file://h/C:/p", "a:b")[c % 4], None, [(n, v % chr(c))]


def case(r):
    base = None
    if r.random() < .45:
        base = r.choice(BASES) if r.random() < .7 else absolute(r)
        s = relative(r) if r.random() < .7 else absolute(r)
    else:
        s = absolute(r) if r.random() < .95 else relative(r)
    ops = [setter(r) for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3, 6]))]
    return s, base, ops
