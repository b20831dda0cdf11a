"""Reference decoders and encoders of the WHATWG Encoding Standard, written from the
standard's text.  The index tables in data/indexes.json.gz were obtained from
an independent implementation (encoding_rs 0.8.35), with the 18 gb18030 pointers that the standard
reassigned in 2023 kept at their earlier values, which is the edition this library follows."""
import bisect, gzip, json, os

_d = json.load(gzip.open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "indexes.json.gz")))
RANGES = [tuple(x) for x in _d.pop("ranges")] + [(189000, 0x10000)]
RP = [p for p, _ in RANGES]
RC = sorted((c, p) for p, c in RANGES)
RCK = [c for c, _ in RC]
INDEX = _d
SINGLE = [k for k in INDEX if k not in ("gb18030", "big5", "jis0208", "jis0212", "euc-kr")]
MULTI = ["gbk", "gb18030", "big5", "euc-jp", "iso-2022-jp", "shift_jis", "euc-kr"]
ALL = ["utf-8"] + SINGLE + MULTI + ["replacement", "utf-16be", "utf-16le", "x-user-defined"]
ENCODABLE = [e for e in ALL if e not in ("replacement", "utf-16be", "utf-16le")]
ERR = -1


def at(name, p):
    t = INDEX[name]
    return t[p] if 0 <= p < len(t) and t[p] >= 0 else None


def gb_cp(p):
    if 39419 < p < 189000 or p > 1237575:
        return None
    if p == 7457:
        return 0xE7C7
    i = bisect.bisect_right(RP, p) - 1
    return RANGES[i][1] + p - RANGES[i][0]


def gb_ptr(c):
    if c == 0xE7C7:
        return 7457
    i = bisect.bisect_right(RCK, c) - 1
    return RC[i][1] + c - RC[i][0]


# ------------------------------------------------------------------ decoders
# each yields code points, or ERR for one malformed sequence

def d_utf8(b):
    i, n = 0, len(b)
    while i < n:
        c = b[i]
        if c < 0x80:
            yield c; i += 1; continue
        if 0xC2 <= c <= 0xDF: k, lo, hi, v = 1, 0x80, 0xBF, c & 0x1F
        elif 0xE0 <= c <= 0xEF: k, lo, hi, v = 2, 0xA0 if c == 0xE0 else 0x80, 0x9F if c == 0xED else 0xBF, c & 15
        elif 0xF0 <= c <= 0xF4: k, lo, hi, v = 3, 0x90 if c == 0xF0 else 0x80, 0x8F if c == 0xF4 else 0xBF, c & 7
        else:
            yield ERR; i += 1; continue
        i += 1
        while k and i < n and lo <= b[i] <= hi:
            v = v << 6 | b[i] & 0x3F
            lo, hi = 0x80, 0xBF
            i += 1; k -= 1
        yield ERR if k else v


def d_single(name):
    t = INDEX[name]
    def f(b):
        for c in b:
            if c < 0x80: yield c
            else:
                x = t[c - 0x80] if c - 0x80 < len(t) else -1
                yield x if x >= 0 else ERR
    return f


def d_gb(b):
    i, n = 0, len(b)
    while i < n:
        c = b[i]
        if c < 0x80: yield c; i += 1; continue
        if c == 0x80: yield 0x20AC; i += 1; continue
        if c == 0xFF: yield ERR; i += 1; continue
        if i + 1 >= n: yield ERR; return
        t = b[i + 1]
        if 0x30 <= t <= 0x39:
            if i + 2 >= n: yield ERR; return
            u = b[i + 2]
            if not 0x81 <= u <= 0xFE: yield ERR; i += 1; continue
            if i + 3 >= n: yield ERR; return
            w = b[i + 3]
            if not 0x30 <= w <= 0x39: yield ERR; i += 1; continue
            x = gb_cp((c - 0x81) * 12600 + (t - 0x30) * 1260 + (u - 0x81) * 10 + w - 0x30)
            yield ERR if x is None else x
            i += 4; continue
        x = None
        if 0x40 <= t <= 0x7E or 0x80 <= t <= 0xFE:
            x = at("gb18030", (c - 0x81) * 190 + t - (0x40 if t < 0x7F else 0x41))
        if x is not None: yield x; i += 2
        else:
            yield ERR
            i += 1 if t < 0x80 else 2


def _two(lead_ok, single, lookup):
    def f(b):
        i, n = 0, len(b)
        while i < n:
            c = b[i]
            s = single(c)
            if s is not None: yield s; i += 1; continue
            if not lead_ok(c): yield ERR; i += 1; continue
            if i + 1 >= n: yield ERR; return
            x = lookup(c, b[i + 1])
            if x is None:
                yield ERR
                i += 1 if b[i + 1] < 0x80 else 2
            else:
                for y in x if isinstance(x, tuple) else (x,): yield y
                i += 2
    return f


def _big5(l, t):
    if not (0x40 <= t <= 0x7E or 0xA1 <= t <= 0xFE): return None
    p = (l - 0x81) * 157 + t - (0x40 if t < 0x7F else 0x62)
    s = {1133: (0xCA, 0x304), 1135: (0xCA, 0x30C), 1164: (0xEA, 0x304), 1166: (0xEA, 0x30C)}.get(p)
    return s or at("big5", p)


def _sjis(l, t):
    if not (0x40 <= t <= 0x7E or 0x80 <= t <= 0xFC): return None
    p = (l - (0x81 if l < 0xA0 else 0xC1)) * 188 + t - (0x40 if t < 0x7F else 0x41)
    if 8836 <= p <= 10715: return 0xE000 - 8836 + p
    return at("jis0208", p)


d_big5 = _two(lambda c: 0x81 <= c <= 0xFE, lambda c: c if c < 0x80 else None, _big5)
d_sjis = _two(lambda c: 0x81 <= c <= 0x9F or 0xE0 <= c <= 0xFC,
              lambda c: c if c <= 0x80 else (0xFF61 - 0xA1 + c if 0xA1 <= c <= 0xDF else None), _sjis)
d_euckr = _two(lambda c: 0x81 <= c <= 0xFE, lambda c: c if c < 0x80 else None,
               lambda l, t: at("euc-kr", (l - 0x81) * 190 + t - 0x41) if 0x41 <= t <= 0xFE else None)


def d_eucjp(b):
    i, n = 0, len(b)
    while i < n:
        c = b[i]
        if c < 0x80: yield c; i += 1; continue
        if not (c in (0x8E, 0x8F) or 0xA1 <= c <= 0xFE): yield ERR; i += 1; continue
        if i + 1 >= n: yield ERR; return
        t = b[i + 1]
        if c == 0x8E and 0xA1 <= t <= 0xDF: yield 0xFF61 - 0xA1 + t; i += 2; continue
        idx, j = "jis0208", i
        if c == 0x8F and 0xA1 <= t <= 0xFE:
            idx, j = "jis0212", i + 1
            if j + 1 >= n: yield ERR; return
            c, t = t, b[j + 1]
        x = None
        if 0xA1 <= c <= 0xFE and 0xA1 <= t <= 0xFE: x = at(idx, (c - 0xA1) * 94 + t - 0xA1)
        if x is not None: yield x; i = j + 2
        else:
            yield ERR
            i = j + 1 if t < 0x80 else j + 2


def d_iso2022jp(b):
    q = list(b)[::-1]
    st, outst, lead, flag = "A", "A", 0, False
    while True:
        c = q.pop() if q else None
        if st in "ARKL":
            if c is None: return
            if c == 0x1B: st = "S"; continue
            flag = False
            if st == "A": yield c if c <= 0x7F and c not in (0x0E, 0x0F) else ERR
            elif st == "R":
                yield 0xA5 if c == 0x5C else 0x203E if c == 0x7E else c if c <= 0x7F and c not in (0x0E, 0x0F) else ERR
            elif st == "K": yield 0xFF61 - 0x21 + c if 0x21 <= c <= 0x5F else ERR
            else:
                if 0x21 <= c <= 0x7E: lead = c; st = "T"
                else: yield ERR
        elif st == "T":
            if c is None: st = "L"; yield ERR; continue
            if c == 0x1B: st = "S"; yield ERR; continue
            st = "L"
            if 0x21 <= c <= 0x7E:
                x = at("jis0208", (lead - 0x21) * 94 + c - 0x21)
                yield ERR if x is None else x
            else: yield ERR
        elif st == "S":
            if c in (0x24, 0x28): lead = c; st = "E"; continue
            if c is not None: q.append(c)
            flag = False; st = outst; yield ERR
        else:
            s = {(0x28, 0x42): "A", (0x28, 0x4A): "R", (0x28, 0x49): "K", (0x24, 0x40): "L", (0x24, 0x42): "L"}.get((lead, c))
            if s:
                st = outst = s
                f, flag = flag, True
                if f: yield ERR
                continue
            if c is not None: q.append(c)
            q.append(lead); lead = 0
            flag = False; st = outst; yield ERR


def d_utf16(be):
    def f(b):
        u = [(b[i] << 8 | b[i + 1]) if be else (b[i + 1] << 8 | b[i]) for i in range(0, len(b) - 1, 2)]
        odd = len(b) % 2
        i = 0
        while i < len(u):
            c = u[i]
            if 0xD800 <= c <= 0xDBFF:
                if i + 1 < len(u):
                    if 0xDC00 <= u[i + 1] <= 0xDFFF:
                        yield 0x10000 + ((c - 0xD800) << 10) + u[i + 1] - 0xDC00; i += 2; continue
                    yield ERR; i += 1; continue
                yield ERR; return      # a trailing byte, if any, is part of the same truncated sequence
            yield ERR if 0xDC00 <= c <= 0xDFFF else c
            i += 1
        if odd: yield ERR
    return f


def d_replacement(b):
    if b: yield ERR


def d_user(b):
    for c in b: yield c if c < 0x80 else 0xF780 + c - 0x80


DEC = {"utf-8": d_utf8, "gbk": d_gb, "gb18030": d_gb, "big5": d_big5, "euc-jp": d_eucjp, "iso-2022-jp": d_iso2022jp,
       "shift_jis": d_sjis, "euc-kr": d_euckr, "replacement": d_replacement, "utf-16be": d_utf16(True),
       "utf-16le": d_utf16(False), "x-user-defined": d_user}
for _k in SINGLE: DEC[_k] = d_single(_k)


def decode(enc, b):
    """code points with U+FFFD for each error"""
    return [0xFFFD if c == ERR else c for c in DEC[enc](b)]


def decode_fatal(enc, b):
    """(code points before the first error, whether there was one)"""
    out = []
    for c in DEC[enc](b):
        if c == ERR: return out, True
        out.append(c)
    return out, False


def sniff(b):
    if b[:3] == b"\xEF\xBB\xBF": return "utf-8", 3
    if b[:2] == b"\xFE\xFF": return "utf-16be", 2
    if b[:2] == b"\xFF\xFE": return "utf-16le", 2
    return None, 0


# ------------------------------------------------------------------ encoders
def _inv(name, lo=0, skip=lambda p: False, last=()):
    m = {}
    for p, c in enumerate(INDEX[name]):
        if c < 0 or p < lo or skip(p): continue
        if c not in m or c in last: m[c] = p
    return m


_big5i = _inv("big5", (0xA1 - 0x81) * 157, last=(0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345))
_sjisi = _inv("jis0208", 0, lambda p: 8272 <= p <= 8835)
_jisi = _inv("jis0208")
_kri = _inv("euc-kr")
_gbi = _inv("gb18030")
KATA = [0x3002, 0x300C, 0x300D, 0x3001, 0x30FB, 0x30F2, 0x30A1, 0x30A3, 0x30A5, 0x30A7, 0x30A9, 0x30E3, 0x30E5, 0x30E7, 0x30C3, 0x30FC,
        0x30A2, 0x30A4, 0x30A6, 0x30A8, 0x30AA, 0x30AB, 0x30AD, 0x30AF, 0x30B1, 0x30B3, 0x30B5, 0x30B7, 0x30B9, 0x30BB, 0x30BD, 0x30BF,
        0x30C1, 0x30C4, 0x30C6, 0x30C8, 0x30CA, 0x30CB, 0x30CC, 0x30CD, 0x30CE, 0x30CF, 0x30D2, 0x30D5, 0x30D8, 0x30DB, 0x30DE, 0x30DF,
        0x30E0, 0x30E1, 0x30E2, 0x30E4, 0x30E6, 0x30E8, 0x30E9, 0x30EA, 0x30EB, 0x30EC, 0x30ED, 0x30EF, 0x30F3, 0x309B, 0x309C]
_sbi = {k: _inv(k) for k in SINGLE}


def enc1(enc, c):
    """bytes of one code point in a stateless encoding, or None"""
    if c < 0x80: return bytes([c])
    if enc == "utf-8": return chr(c).encode("utf-8")
    if enc in _sbi:
        p = _sbi[enc].get(c)
        return None if p is None else bytes([p + 0x80])
    if enc == "x-user-defined": return bytes([c - 0xF780 + 0x80]) if 0xF780 <= c <= 0xF7FF else None
    if enc in ("gbk", "gb18030"):
        if c == 0xE5E5: return None
        if enc == "gbk" and c == 0x20AC: return b"\x80"
        p = _gbi.get(c)
        if p is not None:
            t = p % 190
            return bytes([p // 190 + 0x81, t + (0x40 if t < 0x3F else 0x41)])
        if enc == "gbk": return None
        p = gb_ptr(c)
        return bytes([p // 12600 + 0x81, p % 12600 // 1260 + 0x30, p % 1260 // 10 + 0x81, p % 10 + 0x30])
    if enc == "big5":
        p = _big5i.get(c)
        if p is None: return None
        t = p % 157
        return bytes([p // 157 + 0x81, t + (0x40 if t < 0x3F else 0x62)])
    if enc == "euc-kr":
        p = _kri.get(c)
        return None if p is None else bytes([p // 190 + 0x81, p % 190 + 0x41])
    if c == 0xA5: return b"\x5C"
    if c == 0x203E: return b"\x7E"
    if enc == "euc-jp":
        if 0xFF61 <= c <= 0xFF9F: return bytes([0x8E, c - 0xFF61 + 0xA1])
        p = _jisi.get(0xFF0D if c == 0x2212 else c)
        return None if p is None else bytes([p // 94 + 0xA1, p % 94 + 0xA1])
    if enc == "shift_jis":
        if c == 0x80: return b"\x80"
        if 0xFF61 <= c <= 0xFF9F: return bytes([c - 0xFF61 + 0xA1])
        p = _sjisi.get(0xFF0D if c == 0x2212 else c)
        if p is None: return None
        l, t = p // 188, p % 188
        return bytes([l + (0x81 if l < 0x1F else 0xC1), t + (0x40 if t < 0x3F else 0x41)])
    raise KeyError(enc)


def encode_events(enc, cps):
    """yields bytes, or ('E', code point)"""
    if enc != "iso-2022-jp":
        for c in cps:
            x = enc1(enc, c)
            yield ("E", c) if x is None else x
        return
    st = "A"
    for c in cps:
        if st in "AR" and c in (0x0E, 0x0F, 0x1B): yield ("E", 0xFFFD); continue
        if c < 0x80:
            if st == "A" or st == "R" and c not in (0x5C, 0x7E): yield bytes([c]); continue
            st = "A"; yield b"\x1b(B"
            if c in (0x0E, 0x0F, 0x1B): yield ("E", 0xFFFD)
            else: yield bytes([c])
            continue
        if c in (0xA5, 0x203E):
            if st != "R": st = "R"; yield b"\x1b(J"
            yield b"\x5C" if c == 0xA5 else b"\x7E"; continue
        if c == 0x2212: c = 0xFF0D
        if 0xFF61 <= c <= 0xFF9F: c = KATA[c - 0xFF61]
        p = _jisi.get(c)
        if p is None:
            if st == "J": st = "A"; yield b"\x1b(B"
            yield ("E", c); continue
        if st != "J": st = "J"; yield b"\x1b$B"
        yield bytes([p // 94 + 0x21, p % 94 + 0x21])
    if st != "A": yield b"\x1b(B"


def encode(enc, cps):
    return b"".join(b"&#%d;" % x[1] if isinstance(x, tuple) else x for x in encode_events(enc, cps))


def encode_fatal(enc, cps):
    out = b""
    for x in encode_events(enc, cps):
        if isinstance(x, tuple): return out, x[1]
        out += x
    return out, None
