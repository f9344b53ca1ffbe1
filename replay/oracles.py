"""Reference meaning of the observable behaviour (independent of the C code), used only to replay and to find
failing inputs on the real code; nothing here decides a property."""
import re

NAMES_TRAIL = {0: b'-_', 1: b'.-_'}
HEX = b'0123456789abcdefABCDEF'


def lower(s):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in s)


def uncgi(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == 37 and i + 2 < len(s) and s[i + 1] in HEX and s[i + 2] in HEX:
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(32 if s[i] == 43 else s[i])
            i += 1
    return bytes(out).split(b'\0')[0]


def wipeup(s, trail):
    s = s.lstrip(b'-_#')
    prec = b'.-_' if trail else b'-_'
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] in prec:
            j = i
            while j < len(s) and s[j] in prec:
                j += 1
            out.append(min(s[i:j], key=prec.index))
            i = j
        else:
            out.append(s[i])
            i += 1
    return bytes(out)


def max_length(s, m):
    """-> (result, warned)"""
    if m == 0:
        m = 256
    if len(s) <= m:
        return s, False
    d = s.rfind(b'.')
    if d < 0 or d == len(s) - 1:
        return s[:m], False
    p = s.rfind(b'.', 1, d) if d > 1 else -1
    if p > 0 and d - p <= 5:
        d = p
    ext = s[d:]
    if m <= len(ext):
        return s, True
    return s[:m - len(ext)] + ext, False


def safe(s, get, default):
    """get: code -> bytes|None"""
    out = b''
    for c in s:
        r = get(c if c < 128 else c + 0xFFFFFF00)
        if r is None:
            r = default
        out += bytes([c]) if r is None else r
    return out


def iso(s, get, default):
    out = b''
    for c in s:
        if c < 128:
            out += bytes([c])
            continue
        r = get(c)
        if r is None:
            r = default
        out += bytes([c]) if r is None else r
    return out


def width(c):
    if c < 0x80:
        return 1
    if c < 0xC0 or c >= 0xFE:
        return -1
    for w, top in ((2, 0xE0), (3, 0xF0), (4, 0xF8), (5, 0xFC), (6, 0xFE)):
        if c < top:
            return w


def utf8(s, get, default):
    out = b''
    i = 0
    while i < len(s):
        w = width(s[i])
        if w < 0:
            out += b'_'
            i += 1
            continue
        v = s[i] if w == 1 else s[i] & (0x7F >> w)
        j = i + 1
        ok = True
        while j < i + w:
            if j >= len(s) or s[j] & 0xC0 != 0x80:
                ok = False
                break
            v = v * 64 + (s[j] & 0x3F)
            j += 1
        if not ok:
            out += b'_'
            i = j
            continue
        r = get(v) if v else None
        if r is None and v == 0:
            r = b'_hidden_null_'
        if r is None and v > 0x10FFFF:
            r = b'_'
        if r is None:
            r = default
        out += s[i:j] if r is None else r
        i = j
    return out


class Table:
    """map with capacity"""
    def __init__(self, rows):
        self.cap = rows if rows > 0 else 500
        self.m = {}
        self.default = None
        self.maxlen = 0

    def put(self, k, v):
        if k == 0 or (k not in self.m and len(self.m) >= self.cap):
            return False
        self.m[k] = v
        self.maxlen = max(self.maxlen, len(v))
        return True

    def get(self, k):
        return self.m.get(k) if k else None


def apply_filter(name, s, arg=0, table=None):
    if name == 'lower':
        return lower(s)
    if name == 'uncgi':
        return uncgi(s)
    if name == 'wipeup':
        return wipeup(s, arg)
    if name == 'max_length':
        return max_length(s, arg)[0]
    f = {'safe': safe, 'iso8859_1': iso, 'utf_8': utf8}[name]
    return f(s, table.get, table.default)


def run_filters(s, filters):
    """filters: [(name, arg, Table)]"""
    for n, a, t in filters:
        s = apply_filter(n, s, a, t)
    return s


# ------------------------------------------------------------------ table files
WS = b' \t\n\v\f\r'


def scan_int(s, i):
    """strtol base 0 as %i does: (value or None, position)"""
    while i < len(s) and s[i] in WS:
        i += 1
    j = i
    neg = False
    if j < len(s) and s[j] in b'+-':
        neg = s[j] == 45
        j += 1
    if j >= len(s):
        return None, j
    if s[j:j + 2].lower() == b'0x' and j + 2 < len(s) and s[j + 2] in HEX:
        k = j + 2
        while k < len(s) and s[k] in HEX:
            k += 1
        v = int(s[j + 2:k], 16)
    elif s[j:j + 1] == b'0':
        k = j + 1
        while k < len(s) and s[k] in b'01234567':
            k += 1
        v = int(s[j:k], 8) if k > j + 1 else 0
    elif s[j] in b'123456789':
        k = j
        while k < len(s) and s[k] in b'0123456789':
            k += 1
        v = int(s[j:k])
    else:
        return None, j
    v = (-v if neg else v) & 0xFFFFFFFF        # stored in an int
    return (v - (1 << 32) if v >> 31 else v), k


def word_at(s, i):
    while i < len(s) and s[i] in WS:
        i += 1
    j = i
    while j < len(s) and s[j] not in WS:
        j += 1
    return s[i:j], j


def skip_ws(s, i):
    while i < len(s) and s[i] in WS:
        i += 1
    return i


def value_at(s, i, old):
    """the text of a row or a default: quoted or bare; an empty quoted text leaves `old`"""
    if s[i:i + 1] in (b'"', b"'"):
        q = s[i]
        j = s.find(bytes([q]), i + 1)
        v = s[i + 1:j if j >= 0 else len(s)]
        return v if v else old
    return word_at(s, i)[0]


def parse_table(data, locale):
    """-> Table or None.  Lines of fewer than 1023 bytes without NUL only."""
    t = Table(max(500, len(data) // 6))
    inside = False
    for line in re.findall(rb'[^\n]*\n|[^\n]+', data):
        if line[:1] == b'#':
            continue
        if not inside:
            w, j = word_at(line, 0)
            if not w:
                continue
            j = skip_ws(line, j)
            if w[:5].lower() == b'start':
                if j >= len(line):
                    inside = True
                    continue
                v = value_at(line, j, w)
                if v.lower() == locale[:len(v)].lower() and len(locale) >= len(v):
                    inside = True
                continue
            if w[:7].lower() == b'default':
                t.default = None if j >= len(line) else (value_at(line, j, b'') or None)
            continue
        code, j = scan_int(line, 0)
        if code is None or code < 0:
            w, j = word_at(line, 0)
            if w.lower() == b'end':
                inside = False
            continue
        j = skip_ws(line, j)
        if j >= len(line):
            continue
        if not t.put(code, value_at(line, j, b'')):
            return None
    return t


# ------------------------------------------------------------------ shipped sequences
SW = [('safe', 'safe', 0, 0), ('wipeup', None, 0, 1)]
BUILTIN_CONFIG = [
    ('default', SW),
    ('iso8859_1', [('iso8859_1', 'iso8859_1', 0, 0)] + SW),
    ('iso8859_1-legacy', [('iso8859_1', 'cp1252', 0, 0), ('iso8859_1', 'iso8859_1', 0, 0)] + SW),
    ('utf_8', [('utf_8', 'unicode', 0, 0)] + SW),
    ('uncgi', [('uncgi', None, 0, 0)] + SW),
    ('lower', [('safe', 'safe', 0, 0), ('lower', None, 0, 0), ('wipeup', None, 0, 1)]),
    ('iso8859_1-only', [('iso8859_1', 'iso8859_1', 0, 0)]),
    ('cp1252-only', [('iso8859_1', 'cp1252', 0, 0)]),
    ('utf_8-only', [('utf_8', 'unicode', 0, 0)]),
    ('uncgi-only', [('uncgi', None, 0, 0)]),
    ('lower-only', [('lower', None, 0, 0)]),
]


# ------------------------------------------------------------------ inline pieces
def inline_pieces(data, limit=1024 - 16, width_max=6):
    """pieces of a stream without NUL bytes: (text, had newline)"""
    i = 0
    out = []
    while i < len(data):
        j = data.find(b'\n', i, i + limit - 1)
        if j >= 0:
            out.append((data[i:j], True))
            i = j + 1
            continue
        j = min(len(data), i + limit - 1)
        # finish the character the limit fell into
        k = j - 1
        while k > i and data[k] & 0xC0 == 0x80 and j - k < width_max:
            k -= 1
        w = width(data[k])
        if w > 1:
            m = k + 1
            while m < len(data) and m < k + w and data[m] & 0xC0 == 0x80:
                m += 1
            if m > j:
                j = m
        out.append((data[i:j], False))
        i = j
    return out
