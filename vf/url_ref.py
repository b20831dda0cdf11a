"""Reference of the WHATWG URL standard as the library follows it (late 2020: cannot-be-a-base-URL flag).

Written from the standard, not from the library; compared with Node's URL during development.  Raises
Ambiguous where the answer depends on tables of the Unicode edition, so that such inputs get no verdict.
"""
import unicodedata


class Ambiguous(Exception):
    pass


class Failure(Exception):
    pass


SPECIAL = {"ftp": 21, "file": None, "http": 80, "https": 443, "ws": 80, "wss": 443}
ALPHA = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = set("0123456789")
HEX = set("0123456789abcdefABCDEF")
FORBIDDEN = set("\0\t\n\r #%/:?@[\\]")
EOF = None


def c0(c):
    return ord(c) <= 0x1F or ord(c) > 0x7E


def fragment_set(c):
    return c0(c) or c in ' "<>`'


def query_set(c):
    return c0(c) or c in ' "#<>'


def special_query_set(c):
    return query_set(c) or c == "'"


def path_set(c):
    return fragment_set(c) or c in "#?{}"


def userinfo_set(c):
    return path_set(c) or c in "/:;=@[\\]^|"


def enc(s, st):
    out = []
    for ch in s:
        if 0xD800 <= ord(ch) <= 0xDFFF:
            raise Ambiguous("surrogate")
        for b in ch.encode("utf-8"):
            out.append("%%%02X" % b if st(chr(b)) else chr(b))
    return "".join(out)


def query_encoder(buf, url, st):
    """UTF-8; replaced where the query is to be encoded in a document's encoding"""
    return enc(buf, st)


def percent_decode(s):
    b = s.encode("utf-8")
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == 0x25 and i + 2 < len(b) and chr(b[i + 1]) in HEX and chr(b[i + 2]) in HEX:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def _ordinary(c):
    o = ord(c)
    return (0xE0 <= o <= 0xFF and o != 0xF7) or 0x430 <= o <= 0x44F or 0x3B1 <= o <= 0x3C9 or 0x3041 <= o <= 0x3096 or 0x30A1 <= o <= 0x30FA or o == 0x30FC or 0x4E00 <= o <= 0x9FA5 or o == 0xDF or c in "abcdefghijklmnopqrstuvwxyz0123456789-"


def to_ascii(d):
    if all(ord(c) < 0x80 for c in d):
        r = d.lower()
        if any(l.startswith("xn--") for l in r.split(".")):
            raise Ambiguous("punycode label")
        return r
    d = "".join("." if c in "\u3002\uFF0E\uFF61" else c for c in d)
    labels = []
    for l in d.split("."):
        m = "".join(c if c in "\u00DF\u03C2" else unicodedata.normalize("NFKC", unicodedata.normalize("NFKC", c).lower()) for c in l)
        m = unicodedata.normalize("NFC", m)
        if not m and l:
            raise Ambiguous("label maps to nothing")
        if m.startswith("xn--"):
            raise Ambiguous("punycode label")
        if all(ord(c) < 0x80 for c in m):
            if any(ord(c) > 0x7F for c in l) and any(not (c.isalnum() or c == "-") for c in m):
                raise Ambiguous("mapped to punctuation")
            labels.append(m)
            continue
        if not all(_ordinary(c) for c in m):
            raise Ambiguous("IDNA")
        if m.startswith("-") or m.endswith("-") or m[2:4] == "--":
            raise Ambiguous("hyphens")
        p = "xn--" + m.encode("punycode").decode("ascii")
        if len(p) > 63:
            raise Ambiguous("long label")
        labels.append(p)
    return ".".join(labels)


def ipv4_number(s):
    r = 10
    if len(s) >= 2 and s[:2] in ("0x", "0X"):
        s, r = s[2:], 16
    elif len(s) >= 2 and s[0] == "0":
        s, r = s[1:], 8
    if not s:
        return 0
    ok = {8: set("01234567"), 10: DIGIT, 16: HEX}[r]
    if any(c not in ok for c in s):
        return None
    return int(s, r)


def parse_ipv4(s):
    """int, or None when the input is not an IPv4 address; Failure"""
    parts = s.split(".")
    if parts[-1] == "" and len(parts) > 1:
        parts.pop()
    nums = []
    bad = len(parts) > 4
    for p in parts:
        n = None if p == "" else ipv4_number(p)
        if n is None:
            bad = True
            break
        nums.append(n)
    if bad:
        return None
    if any(n > 255 for n in nums[:-1]):
        raise Failure
    if nums[-1] >= 256 ** (5 - len(nums)):
        raise Failure
    v = nums[-1]
    for i, n in enumerate(nums[:-1]):
        v += n * 256 ** (3 - i)
    return v


def parse_ipv6(s):
    a = [0] * 8
    pi = 0
    compress = None
    p = 0
    n = len(s)

    def at(i):
        return s[i] if i < n else None
    if at(0) == ":":
        if at(1) != ":":
            raise Failure
        p = 2
        pi = 1
        compress = 1
    while p < n:
        if pi == 8:
            raise Failure
        if s[p] == ":":
            if compress is not None:
                raise Failure
            p += 1
            pi += 1
            compress = pi
            continue
        v = ln = 0
        while ln < 4 and p < n and s[p] in HEX:
            v = v * 16 + int(s[p], 16)
            p += 1
            ln += 1
        if at(p) == ".":
            if ln == 0:
                raise Failure
            p -= ln
            if pi > 6:
                raise Failure
            seen = 0
            while p < n:
                piece = None
                if seen > 0:
                    if s[p] == "." and seen < 4:
                        p += 1
                    else:
                        raise Failure
                if p >= n or s[p] not in DIGIT:
                    raise Failure
                while p < n and s[p] in DIGIT:
                    d = int(s[p])
                    if piece is None:
                        piece = d
                    elif piece == 0:
                        raise Failure
                    else:
                        piece = piece * 10 + d
                    if piece > 255:
                        raise Failure
                    p += 1
                a[pi] = a[pi] * 256 + piece
                seen += 1
                if seen in (2, 4):
                    pi += 1
            if seen != 4:
                raise Failure
            break
        elif at(p) == ":":
            p += 1
            if p >= n:
                raise Failure
        elif p < n:
            raise Failure
        a[pi] = v
        pi += 1
    if compress is not None:
        sw = pi - compress
        pi = 7
        while pi != 0 and sw > 0:
            a[pi], a[compress + sw - 1] = a[compress + sw - 1], a[pi]
            pi -= 1
            sw -= 1
    elif pi != 8:
        raise Failure
    return a


def ser_ipv6(a):
    best, blen, i = None, 1, 0
    while i < 8:
        if a[i] == 0:
            j = i
            while j < 8 and a[j] == 0:
                j += 1
            if j - i > blen:
                best, blen = i, j - i
            i = j
        else:
            i += 1
    if best is None:
        return ":".join("%x" % x for x in a)
    return ":".join("%x" % x for x in a[:best]) + "::" + ":".join("%x" % x for x in a[best + blen:])


def parse_host(s, not_special):
    """a serialized host"""
    if s[:1] == "[":
        if s[-1] != "]":
            raise Failure
        return "[" + ser_ipv6(parse_ipv6(s[1:-1])) + "]"
    if not_special:
        if any(c in FORBIDDEN and c != "%" for c in s):
            raise Failure
        return enc(s, c0)
    assert s
    d = percent_decode(s).decode("utf-8", "replace")
    if "\uFFFD" in d:
        raise Failure
    if any(c in FORBIDDEN for c in d):
        raise Failure
    a = to_ascii(d)
    if any(c in FORBIDDEN for c in a):
        raise Failure
    v = parse_ipv4(a)
    if v is None:
        return a
    return ".".join(str(v >> k & 255) for k in (24, 16, 8, 0))


class Url:
    def __init__(self):
        self.scheme = self.username = self.password = ""
        self.host = None          # serialized; "" is the empty host
        self.port = None
        self.path = []
        self.query = self.fragment = None
        self.opaque = False

    def copy(self):
        u = Url()
        u.__dict__.update(self.__dict__)
        u.path = list(self.path)
        return u

    def special(self):
        return self.scheme in SPECIAL

    def creds(self):
        return bool(self.username or self.password)

    def shorten(self):
        if self.scheme == "file" and len(self.path) == 1 and len(self.path[0]) == 2 and self.path[0][0] in ALPHA and self.path[0][1] == ":":
            return
        if self.path:
            self.path.pop()

    def pathstr(self):
        return self.path[0] if self.opaque else "".join("/" + p for p in self.path)

    def href(self, nofrag=False):
        o = self.scheme + ":"
        if self.host is not None:
            o += "//"
            if self.creds():
                o += self.username + (":" + self.password if self.password else "") + "@"
            o += self.host
            if self.port is not None:
                o += ":%d" % self.port
        elif not self.opaque and len(self.path) > 1 and self.path[0] == "":
            o += "/."
        o += self.pathstr()
        if self.query is not None:
            o += "?" + self.query
        if not nofrag and self.fragment is not None:
            o += "#" + self.fragment
        return o

    def fields(self):
        return [self.href(), self.scheme + ":", self.username, self.password,
                "" if self.host is None else self.host + (":%d" % self.port if self.port is not None else ""),
                self.host or "", "" if self.port is None else str(self.port), self.pathstr(),
                "?" + self.query if self.query else "", "#" + self.fragment if self.fragment else ""]

    # setters
    def set(self, name, v):
        getattr(self, "_" + name)(v)

    def _no_auth(self):
        return self.host is None or self.host == "" or self.opaque or self.scheme == "file"

    def _protocol(self, v):
        run(v + ":", None, self, "scheme start")

    def _username(self, v):
        if not self._no_auth():
            self.username = enc(v, userinfo_set)

    def _password(self, v):
        if not self._no_auth():
            self.password = enc(v, userinfo_set)

    def _host(self, v):
        if not self.opaque:
            run(v, None, self, "host")

    def _hostname(self, v):
        if not self.opaque:
            run(v, None, self, "hostname")

    def _port(self, v):
        if self._no_auth():
            return
        if v == "":
            self.port = None
        else:
            run(v, None, self, "port")

    def _pathname(self, v):
        if self.opaque:
            return
        self.path = []
        run(v, None, self, "path start")

    def _search(self, v):
        if v == "":
            self.query = None
            return
        self.query = ""
        run(v[1:] if v[0] == "?" else v, None, self, "query")

    def _hash(self, v):
        if v == "":
            self.fragment = None
            return
        self.fragment = ""
        run(v[1:] if v[0] == "#" else v, None, self, "fragment")

    def _href(self, v):
        u = parse(v)
        self.__dict__.update(u.__dict__)


def drive(s):
    return len(s) == 2 and s[0] in ALPHA and s[1] in ":|"


def starts_drive(s):
    return len(s) >= 2 and drive(s[:2]) and (len(s) == 2 or s[2] in "/\\?#")


def parse(s, base=None):
    return run(s, base)


def run(s, base, url=None, override=None):
    try:
        return _run(s, base, url, override)
    except Failure:
        if override:
            return None
        raise


def _run(s, base, url, override):
    if url is None:
        url = Url()
        a, b = 0, len(s)
        while a < b and ord(s[a]) <= 0x20:
            a += 1
        while b > a and ord(s[b - 1]) <= 0x20:
            b -= 1
        s = s[a:b]
    s = "".join(c for c in s if c not in "\t\n\r")
    st = override or "scheme start"
    buf = ""
    at = br = pw = False
    p = 0
    n = len(s)
    while True:
        c = s[p] if 0 <= p < n else EOF
        rest = s[p + 1:] if p >= 0 else s
        if st == "scheme start":
            if c is not EOF and c in ALPHA:
                buf += c.lower()
                st = "scheme"
            elif not override:
                st = "no scheme"
                p -= 1
            else:
                raise Failure
        elif st == "scheme":
            if c is not EOF and (c in ALPHA or c in DIGIT or c in "+-."):
                buf += c.lower()
            elif c == ":":
                if override:
                    if (url.scheme in SPECIAL) != (buf in SPECIAL):
                        return
                    if (url.creds() or url.port is not None) and buf == "file":
                        return
                    if url.scheme == "file" and not url.host:
                        return
                url.scheme = buf
                if override:
                    if url.port == SPECIAL.get(url.scheme):
                        url.port = None
                    return
                buf = ""
                if url.scheme == "file":
                    st = "file"
                elif url.special() and base is not None and base.scheme == url.scheme:
                    st = "special relative or authority"
                elif url.special():
                    st = "special authority slashes"
                elif rest[:1] == "/":
                    st = "path or authority"
                    p += 1
                else:
                    url.opaque = True
                    url.path = [""]
                    st = "opaque path"
            elif not override:
                buf = ""
                st = "no scheme"
                p = -1
            else:
                raise Failure
        elif st == "no scheme":
            if base is None or (base.opaque and c != "#"):
                raise Failure
            elif base.opaque:
                url.scheme, url.path, url.query, url.fragment, url.opaque = base.scheme, list(base.path), base.query, "", True
                st = "fragment"
            elif base.scheme != "file":
                st = "relative"
                p -= 1
            else:
                st = "file"
                p -= 1
        elif st == "special relative or authority":
            if c == "/" and rest[:1] == "/":
                st = "special authority ignore slashes"
                p += 1
            else:
                st = "relative"
                p -= 1
        elif st == "path or authority":
            if c == "/":
                st = "authority"
            else:
                st = "path"
                p -= 1
        elif st == "relative":
            url.scheme = base.scheme
            if c == "/" or (url.special() and c == "\\"):
                st = "relative slash"
            else:
                url.username, url.password, url.host, url.port, url.path, url.query = base.username, base.password, base.host, base.port, list(base.path), base.query
                if c == "?":
                    url.query = ""
                    st = "query"
                elif c == "#":
                    url.fragment = ""
                    st = "fragment"
                elif c is not EOF:
                    url.query = None
                    url.shorten()
                    st = "path"
                    p -= 1
        elif st == "relative slash":
            if url.special() and c in ("/", "\\"):
                st = "special authority ignore slashes"
            elif c == "/":
                st = "authority"
            else:
                url.username, url.password, url.host, url.port = base.username, base.password, base.host, base.port
                st = "path"
                p -= 1
        elif st == "special authority slashes":
            st = "special authority ignore slashes"
            if c == "/" and rest[:1] == "/":
                p += 1
            else:
                p -= 1
        elif st == "special authority ignore slashes":
            if c not in ("/", "\\"):
                st = "authority"
                p -= 1
        elif st == "authority":
            if c == "@":
                if at:
                    buf = "%40" + buf
                at = True
                for ch in buf:
                    if ch == ":" and not pw:
                        pw = True
                        continue
                    if pw:
                        url.password += enc(ch, userinfo_set)
                    else:
                        url.username += enc(ch, userinfo_set)
                buf = ""
            elif c is EOF or c in "/?#" or (url.special() and c == "\\"):
                if at and buf == "":
                    raise Failure
                p -= len(buf) + 1
                buf = ""
                st = "host"
            else:
                buf += c
        elif st in ("host", "hostname"):
            if override and url.scheme == "file":
                p -= 1
                st = "file host"
            elif c == ":" and not br:
                if buf == "":
                    raise Failure
                url.host = parse_host(buf, not url.special())
                buf = ""
                if override == "hostname":
                    return
                st = "port"
            elif c is EOF or c in "/?#" or (url.special() and c == "\\"):
                p -= 1
                if url.special() and buf == "":
                    raise Failure
                elif override and buf == "" and (url.creds() or url.port is not None):
                    return
                url.host = parse_host(buf, not url.special())
                buf = ""
                st = "path start"
                if override:
                    return
            else:
                if c == "[":
                    br = True
                if c == "]":
                    br = False
                buf += c
        elif st == "port":
            if c is not EOF and c in DIGIT:
                buf += c
            elif c is EOF or c in "/?#" or (url.special() and c == "\\") or override:
                if buf:
                    port = int(buf)
                    if port > 65535:
                        raise Failure
                    url.port = None if port == SPECIAL.get(url.scheme) else port
                    buf = ""
                if override:
                    return
                st = "path start"
                p -= 1
            else:
                raise Failure
        elif st == "file":
            url.scheme = "file"
            url.host = ""
            if c in ("/", "\\"):
                st = "file slash"
            elif base is not None and base.scheme == "file":
                url.host, url.path, url.query = base.host, list(base.path), base.query
                if c == "?":
                    url.query = ""
                    st = "query"
                elif c == "#":
                    url.fragment = ""
                    st = "fragment"
                elif c is not EOF:
                    url.query = None
                    if not starts_drive(s[p:]):
                        url.shorten()
                    else:
                        url.path = []
                    st = "path"
                    p -= 1
            else:
                st = "path"
                p -= 1
        elif st == "file slash":
            if c in ("/", "\\"):
                st = "file host"
            else:
                if base is not None and base.scheme == "file":
                    url.host = base.host
                    if not starts_drive(s[p:]) and base.path and drive(base.path[0]) and base.path[0][1] == ":":
                        url.path.append(base.path[0])
                st = "path"
                p -= 1
        elif st == "file host":
            if c is EOF or c in "/\\?#":
                p -= 1
                if not override and drive(buf):
                    st = "path"
                elif buf == "":
                    url.host = ""
                    if override:
                        return
                    st = "path start"
                else:
                    h = parse_host(buf, not url.special())
                    url.host = "" if h == "localhost" else h
                    if override:
                        return
                    buf = ""
                    st = "path start"
            else:
                buf += c
        elif st == "path start":
            if url.special():
                st = "path"
                if c not in ("/", "\\"):
                    p -= 1
            elif not override and c == "?":
                url.query = ""
                st = "query"
            elif not override and c == "#":
                url.fragment = ""
                st = "fragment"
            elif c is not EOF:
                st = "path"
                if c != "/":
                    p -= 1
        elif st == "path":
            if c is EOF or c == "/" or (url.special() and c == "\\") or (not override and c in "?#"):
                l = buf.lower()
                slash = c == "/" or (url.special() and c == "\\")
                if l in ("..", ".%2e", "%2e.", "%2e%2e"):
                    url.shorten()
                    if not slash:
                        url.path.append("")
                elif l in (".", "%2e"):
                    if not slash:
                        url.path.append("")
                else:
                    if url.scheme == "file" and not url.path and drive(buf):
                        buf = buf[0] + ":"
                    url.path.append(buf)
                buf = ""
                if c == "?":
                    url.query = ""
                    st = "query"
                if c == "#":
                    url.fragment = ""
                    st = "fragment"
            else:
                buf += enc(c, path_set)
        elif st == "opaque path":
            if c == "?" or c == "#":
                if c == "?":
                    url.query = ""
                    st = "query"
                else:
                    url.fragment = ""
                    st = "fragment"
            elif c is not EOF:
                url.path[0] += enc(c, c0)
        elif st == "query":
            if (not override and c == "#") or c is EOF:
                url.query += query_encoder(buf, url, special_query_set if url.special() else query_set)
                buf = ""
                if c == "#":
                    url.fragment = ""
                    st = "fragment"
            else:
                buf += c
        elif st == "fragment":
            if c is not EOF:
                url.fragment += enc(c, fragment_set)
        if p >= n:
            break
        p += 1
    return url
