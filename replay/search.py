"""Looks for a concrete failing input on the real code, property by property.

Used (a) to replay a failed obligation and (b) on every run, for a few seconds, to validate the contracts the proofs
rest on against the real libc.  It never decides that a property holds."""
import os, random, re, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import oracles as O
from run import Driver, Crash, h, unh, fields
import build

SRC = os.path.join(build.REPO, 'src')
TBL = os.path.join(build.REPO, 'table')


def harvest():
    """constants of the current sources: numbers, character and string literals"""
    nums, strs = set(), set()
    for f in sorted(os.listdir(SRC)):
        if not f.endswith(('.c', '.h', '.y', '.l')) or f in build.EXCLUDE or f in ('builtin_table.c', 'config_file_lex.c'):
            continue
        t = open(os.path.join(SRC, f), 'rb').read().decode('latin1')
        if f == 'config_file_yacc.c':
            t = t[t.find('parse_config_file'):]
        t = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', t, flags=re.S)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            try:
                s = m.group(1).encode('latin1').decode('unicode_escape').encode('latin1')
            except Exception:
                continue
            if 0 < len(s) <= 24 and b'%' not in s[:-1] and b'\n' not in s and b'\0' not in s:
                strs.add(s)
        for m in re.finditer(r"'((?:[^'\\\n]|\\.[0-7x]*[0-9a-fA-F]*))'", t):
            try:
                s = m.group(1).encode('latin1').decode('unicode_escape').encode('latin1')
            except Exception:
                continue
            if s and s != b'\0':
                strs.add(s)
        t = re.sub(r'"((?:[^"\\\n]|\\.)*)"', ' ', t)
        for m in re.finditer(r'\b(0[xX][0-9a-fA-F]+|\d+)\b', t):
            v = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1), 8) if re.fullmatch('0[0-7]+', m.group(1)) else 0
            nums.add(v)
    return sorted(nums), sorted(strs)


def tbl_source(name):
    t = O.parse_table(open(os.path.join(TBL, name + '.tbl'), 'rb').read(), b'C')
    for k, v in t.m.items():    # \\uXXXX and \\UXXXXXXXX stand for a character
        t.m[k] = re.sub(rb'\\(u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})', lambda m: chr(int(m.group(1)[1:], 16)).encode('utf-8', 'surrogatepass'), v)
    return t


class Found(Exception):
    def __init__(self, **k):
        self.k = k


class Ctx:
    def __init__(self, prop, seed=1, seconds=10, drv=None, hints=()):
        self.prop = prop
        self.rng = random.Random(seed * 1000003 + int(prop[1:]))
        self.drv = drv or Driver()
        self.deadline = time.time() + seconds
        self.nums, self.strs = harvest()
        self.small = [n for n in self.nums if 0 < n <= 2100]
        self.hints = list(hints)
        self.count = 0

    def more(self):
        return time.time() < self.deadline

    # ---- asking the real code
    def ask(self, lines):
        self.count += len(lines)
        return self.drv.pbatch(lines)

    def bad(self, line, expected, actual, note):
        raise Found(line=line, expected=repr(expected), actual=actual.summary() if isinstance(actual, Crash) else repr(actual), note=note)

    # ---- generators
    def length(self):
        r = self.rng
        k = r.random()
        if k < 0.08:
            return 0
        if k < 0.62:
            return r.randint(1, 8)
        if k < 0.9:
            return r.randint(1, 40)
        n = r.choice(self.small) + r.randint(-2, 2)
        return max(0, min(n, 1200))

    def name(self, alpha=None, slash=False, n=None):
        """a byte string without NUL"""
        r = self.rng
        n = self.length() if n is None else n
        if alpha is None:
            alpha = r.choice((b'ab', b'-_.#a', b'-_.# aB', b'%+0123456789abcdefABCDEF', b'.abc', b'aZ@[`{', None, None, bytes(range(128, 256)),
                              bytes(range(1, 128)), b'\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80ab', b'\xc0\x80\xed\xa0\x80\xf8\xfc\xfe\xff\xc1\xbf'))
        out = b''
        while len(out) < n:
            k = r.random()
            if k < 0.06 and self.strs:
                out += r.choice(self.strs)
            elif k < 0.1 and alpha:
                out += bytes([r.choice(alpha)]) * r.randint(2, 5)
            elif k < 0.12:
                out += r.choice((b'%41', b'%2', b'%', b'%zz', b'%25', b'%00', b'%2e', b'..', b'.tar.gz', b'\xe2\x82\xac', b'\xc3\xa9', b' & '))
            elif alpha is None:
                out += bytes([r.randint(1, 255)])
            else:
                out += bytes([r.choice(alpha)])
        if len(out) > n and r.random() < 0.5:
            out = out[:n]
        if not slash:
            out = out.replace(b'/', b'|')
        return out.replace(b'\0', b'.').replace(b'\n', b' ' if not slash else b'\n')

    def anyname(self):
        s = self.name(slash=True)
        if self.rng.random() < 0.02:
            s += b'\n'
        return s

    def value(self):
        r = self.rng
        k = r.random()
        if k < 0.15:
            return b''
        if k < 0.6:
            return bytes(r.choice(b'_-.abAB12') for _ in range(r.randint(1, 3)))
        if k < 0.9:
            return bytes(r.randint(1, 255) for _ in range(r.randint(1, 20)))
        return b'x' * r.choice((13, 14, 40, 100, 255))

    def table(self, keys):
        """(O.Table, driver spec)"""
        r = self.rng
        rows = r.choice((1, 2, 3, 5, 7, 16, 64, 127, 500))
        t = O.Table(rows)
        hash_ = r.choice((0, 1, 1))
        t.default = r.choice((None, None, b'_', b'', self.value(), self.value()))
        spec = '%d,%d,%s' % (rows, hash_, h(t.default))
        for _ in range(r.choice((0, 1, 2, 3, 5, 9, 30))):
            k = keys(r)
            v = self.value()
            if t.put(k, v):
                spec += ',%d:%s' % (k, h(v))
        return t, spec


# ------------------------------------------------------------------ cleaning steps
def compare(ctx, cases, note, warn=False):
    """cases: [(line, expected bytes or None)]"""
    for (line, want), got in zip(cases, ctx.ask([c[0] for c in cases])):
        if got is None:
            continue
        w = h(want) + ' kept'
        if isinstance(got, Crash) or got.strip() != w:
            ctx.bad(line, w, got, note)


def s_lower(ctx):
    pre = [bytes([c]) for c in range(1, 256)]
    while True:
        cs = [('filter lower %s' % h(s), O.lower(s)) for s in pre + [ctx.anyname() for _ in range(4000)]]
        compare(ctx, cs, 'clean_lower')
        pre = []
        if not ctx.more():
            return


def s_uncgi(ctx):
    pre = [b'%%%02x' % c for c in range(256)] + [b'%%%02X' % c for c in range(256)] + [b'%' + bytes([a, b]) for a in b'0gG/:@`\x80 f9' for b in range(1, 256)]
    while True:
        cs = [('filter uncgi %s' % h(s), O.uncgi(s)) for s in pre + [ctx.name(b'%+%0123456789abcdefABCDEFgG', True) if ctx.rng.random() < .6 else ctx.anyname() for _ in range(4000)]]
        compare(ctx, cs, 'clean_uncgi')
        pre = []
        if not ctx.more():
            return


def s_wipeup(ctx):
    pre = []
    al = b'-_.#a'
    for n in range(1, 6):
        for k in range(len(al) ** n):
            s, x = b'', k
            for _ in range(n):
                s += bytes([al[x % len(al)]])
                x //= len(al)
            pre.append(s)
    while True:
        cs = []
        for s in pre + [ctx.name(b'-_.#a', True) if ctx.rng.random() < .6 else ctx.anyname() for _ in range(4000)]:
            for t in (0, 1):
                cs.append(('filter wipeup %s %d' % (h(s), t), O.wipeup(s, t)))
        compare(ctx, cs, 'clean_wipeup')
        pre = []
        if not ctx.more():
            return


def s_max_length(ctx):
    r = ctx.rng
    while True:
        cs = []
        for _ in range(6000):
            k = r.random()
            if k < .5:
                s = ctx.name(b'.ab', True, n=r.randint(0, 20))
                m = r.randint(0, 22)
            elif k < .8:
                s = ctx.name(b'ab', True, n=r.randint(250, 262)) + r.choice((b'', b'.', b'.gz', b'.tar.gz', b'.a.b', b'.abcde.gz', b'.abcd.e'))
                m = r.choice((0, 0, 1, 5, 255, 256, 257, r.randint(1, 300)))
            else:
                s = ctx.anyname()
                m = r.choice((0, 1, 2, r.randint(0, 300), r.choice(ctx.small)))
            cs.append(('filter max_length %s %d' % (h(s), m), O.max_length(s, m)[0]))
        compare(ctx, cs, 'clean_max_length')
        if not ctx.more():
            break
    # the warning
    cs = []
    for s, m in ((b'aaaa.bbbbbb', 4), (b'a.bc', 3), (b'a.bcd', 3), (b'abc.d.efg', 6), (b'abcdef', 3), (b'abc.d', 4)):
        cs.append((s, m))
    for (s, m), a in zip(cs, ctx.ask(['oomfilter -1 max_length %s %d' % (h(s), m) for s, m in cs])):
        if isinstance(a, str):
            f = fields(a)
            if bool(f['err']) != O.max_length(s, m)[1]:
                ctx.bad('oomfilter -1 max_length %s %d' % (h(s), m), 'warning: %s' % O.max_length(s, m)[1], f['err'], 'warning when the extension does not fit')


def byte_keys(r):
    return r.choice((r.randint(1, 127), r.randint(1, 255), r.choice(b'-_. #a/'), r.randint(1, 9), 256 + r.randint(1, 255), 0xE9))


def s_safe(ctx):
    pre = True
    while True:
        cs = []
        if pre:
            for d in (None, b'', b'_', b'xyz'):
                for c in range(1, 256):
                    t = O.Table(300)
                    t.default = d
                    t.put(c, b'<>')
                    t.put(c ^ 1 or 7, b'!')
                    sp = '300,1,%s,%d:%s,%d:%s' % (h(d), c, h(b'<>'), c ^ 1 or 7, h(b'!'))
                    s = bytes([c, c ^ 1 or 7, 97, 200])
                    cs.append(('filter safe %s %s' % (h(s), sp), O.safe(s, t.get, t.default)))
        for _ in range(2500):
            t, sp = ctx.table(byte_keys)
            s = ctx.anyname()
            if t.m and ctx.rng.random() < .6:
                ks = [k for k in t.m if 0 < k < 256] or [97]
                s = bytes(ctx.rng.choice((ctx.rng.choice(ks), ctx.rng.randint(1, 255), 97)) for _ in range(ctx.length()))
            cs.append(('filter safe %s %s' % (h(s), sp), O.safe(s, t.get, t.default)))
        compare(ctx, cs, 'clean_safe')
        pre = False
        if not ctx.more():
            return


def s_iso(ctx):
    pre = True
    while True:
        cs = []
        if pre:
            for d in (None, b'', b'_', b'xyz'):
                for c in range(1, 256):
                    t = O.Table(300)
                    t.default = d
                    t.put(c, b'<>')
                    sp = '300,1,%s,%d:%s' % (h(d), c, h(b'<>'))
                    s = bytes([c, 97, 200, c])
                    cs.append(('filter iso8859_1 %s %s' % (h(s), sp), O.iso(s, t.get, t.default)))
        for _ in range(2500):
            t, sp = ctx.table(byte_keys)
            s = bytes(ctx.rng.choice((ctx.rng.randint(128, 255), ctx.rng.randint(1, 255), ctx.rng.choice([k for k in t.m if 0 < k < 256] or [97]))) for _ in range(ctx.length()))
            cs.append(('filter iso8859_1 %s %s' % (h(s), sp), O.iso(s, t.get, t.default)))
        compare(ctx, cs, 'clean_iso8859_1')
        pre = False
        if not ctx.more():
            return


def enc(v, w):
    """v in w bytes, possibly overlong"""
    if w == 1:
        return bytes([v & 0x7F])
    out = []
    for _ in range(w - 1):
        out.append(0x80 | v & 0x3F)
        v >>= 6
    lead = (0xFF00 >> w) & 0xFF | v & (0x7F >> w)
    return bytes([lead] + out[::-1])


def s_utf8(ctx):
    r = ctx.rng
    specials = [0, 1, 0x41, 0x7F, 0x80, 0xA9, 0xE9, 0x7FF, 0x800, 0x20AC, 0xD800, 0xDFFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFE, 0x10FFFF, 0x110000,
                0x110001, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF]

    def keys(r):
        return r.choice((r.randint(1, 255), r.choice(specials[1:]), r.randint(256, 0x10FFFF)))
    first = True
    while True:
        cs = []
        if first:
            for d in (None, b'', b'_', b'wxyz'):
                for c in range(1, 256):
                    t = O.Table(3)
                    t.default = d
                    sp = '3,1,%s' % h(d)
                    for s in (bytes([c]), bytes([c, 0x80]), bytes([c, 0xBF, 0x80]), bytes([c, 0x80, 0xBF, 0x85]), bytes([c, 0x80, 0x80, 0x80, 0x80, 0x80]), bytes([0xE2, c, 0x80, 97]),
                              bytes([c, 97, 98]), bytes([0xF0, 0x90, c, 0x80, 97])):
                        cs.append(('filter utf_8 %s %s' % (h(s), sp), O.utf8(s, t.get, t.default)))
            for v in specials:
                for w in range(1, 7):
                    if v < (1 << (7 if w == 1 else 5 * w + 1 + (1 if w == 1 else 0))) and not (w == 1 and v == 0):
                        for d in (None, b'D'):
                            for row in (0, 1):
                                t = O.Table(5)
                                t.default = d
                                sp = '5,1,%s' % h(d)
                                if row and v:
                                    t.put(v, b'row')
                                    sp += ',%d:%s' % (v, h(b'row'))
                                s = b'a' + enc(v, w) + b'b'
                                if b'\0' in s:
                                    continue
                                cs.append(('filter utf_8 %s %s' % (h(s), sp), O.utf8(s, t.get, t.default)))
        for _ in range(2500):
            t, sp = ctx.table(keys)
            k = r.random()
            if k < .3:
                s = ctx.anyname()
            else:
                s = b''
                for _ in range(r.randint(1, 8)):
                    v = r.choice((r.choice(specials), r.choice(list(t.m) or [97]), r.randint(1, 0x10FFFF), r.randint(1, 0x7FFFFFFF), r.randint(1, 127)))
                    need = 1 if v < 0x80 else 2 if v < 0x800 else 3 if v < 0x10000 else 4 if v < 0x200000 else 5 if v < 0x4000000 else 6
                    if v > 0x7FFFFFFF:
                        continue
                    e = enc(v, r.choice((need, need, need, r.randint(need, 6))))
                    if r.random() < .15:
                        e = e[:r.randint(1, len(e))]
                    if r.random() < .1:
                        e += bytes([r.choice((0x80, 0xBF, 0xFE, 0xFF, 0xC3, 65))])
                    s += e
                s = s.replace(b'\0', b'')
            cs.append(('filter utf_8 %s %s' % (h(s), sp), O.utf8(s, t.get, t.default)))
        compare(ctx, cs, 'clean_utf_8')
        first = False
        if not ctx.more():
            return


FILTERS = ('lower', 'uncgi', 'wipeup', 'max_length', 'safe', 'iso8859_1', 'utf_8')


def s_memory(ctx):
    """C01: sanitizer reports, changed inputs, results that are the input"""
    r = ctx.rng
    while True:
        lines = []
        for _ in range(4000):
            f = r.choice(FILTERS)
            s = ctx.anyname()
            if f in ('wipeup', 'max_length'):
                a = str(r.choice((0, 1))) if f == 'wipeup' else str(r.choice((0, 1, 2, r.randint(0, 40), 256)))
            elif f in ('lower', 'uncgi'):
                a = '0'
            else:
                if r.random() < .2:
                    a = r.choice(('@safe', '@iso', '@cp1252', '@unicode'))
                else:
                    t, a = ctx.table((lambda r: r.choice((r.randint(1, 255), r.randint(256, 0x10FFFF), 0x110000))))
                    ks = [k for k in t.m] or [97]
                    if r.random() < .7:
                        n = ctx.length()
                        s = b''
                        while len(s) < n:
                            k = r.choice(ks)
                            s += (enc(k, 1 if k < 128 else 2 if k < 0x800 else 3 if k < 0x10000 else 4) if f == 'utf_8' else bytes([k & 0xFF or 1])) if r.random() < .8 else r.choice((b'\xc0\x80', b'\xff', b'a', b'\xe0\x80\x80', b'\xf4\x90\x80\x80'))
                        s = s.replace(b'\0', b'x')
            lines.append('filter %s %s %s' % (f, h(s), a))
        for l, a in zip(lines, ctx.ask(lines)):
            if a is None:
                continue
            if isinstance(a, Crash):
                ctx.bad(l, 'no memory error, termination', a, 'a cleaning step leaves its buffers')
            if not a.strip().endswith('kept') or a.startswith('-'):
                ctx.bad(l, 'fresh result, unchanged input', a, 'a cleaning step changes its input or returns no fresh result')
        if not ctx.more():
            return


SAFE_OK = re.compile(rb'[A-Za-z0-9._\-+=@~^:,%#!\x80-\xff]*\Z')
META = b'\x00' + bytes(range(1, 33)) + b'\x7f' + b'"\'`$&*()<>?[]{}|\\;!/'


def s_default(ctx):
    """C07"""
    a = ctx.ask(['load -'])[0]
    lines = []
    r = ctx.rng
    first = True
    run = 'run %s safe/0/0/@safe wipeup/0/1/-'
    while True:
        names = [bytes([x]) for x in range(1, 256)] if first else []
        if first:
            names += [bytes([x, y]) for x in b'-_.# a&+~' for y in range(1, 256)] + [b'a' + bytes([x, y]) + b'b' for x in b'-_.# &(' for y in range(1, 256)]
        names += [ctx.name(b'-_.# ab&()', True) if r.random() < .5 else ctx.anyname() for _ in range(4000)]
        ans = ctx.ask([run % h(s) for s in names])
        outs = []
        for s, x in zip(names, ans):
            if x is None:
                continue
            l = run % h(s)
            if isinstance(x, Crash):
                ctx.bad(l, 'a cleaned name', x, 'default sequence')
            o = unh(x.split(' ')[0])
            if o is None:
                ctx.bad(l, 'a cleaned name', x, 'default sequence')
            for c in o:
                if c in META:
                    ctx.bad(l, 'no %r' % chr(c), o, 'unsafe byte in a cleaned name')
            if o[:1] in (b'-', b'_', b'#') and o:
                ctx.bad(l, 'no leading - _ #', o, 'cleaned name starts with a dash, underscore or hash')
            if re.search(rb'[._-][._-]', o):
                ctx.bad(l, 'no adjacent separators', o, 'adjacent separators in a cleaned name')
            outs.append(o)
        for o, x in zip(outs, ctx.ask([run % h(o) for o in outs])):
            if x is not None and (isinstance(x, Crash) or unh(x.split(' ')[0]) != o):
                ctx.bad(run % h(o), o, x, 'cleaning a cleaned name changes it')
        # the program itself, with no configuration file
        if first:
            probe = [b'a b', b'-x', b'a&b', b'#a', b'a..b', b'a-_b', b'(a)', b'a\tb', b'a/\\b'.replace(b'/', b''), b'~x!$', b'a\x80\xffb', b'a"\'b', b'%41', b'A B']
            data = b''.join(p + b'\n' for p in probe)
            x = ctx.ask(['main %s :: stdin:%s' % (h(b'inline-detox'), h(data))])[0]
            want = ctx.ask([run % h(p) for p in probe])
            w = b''.join((unh(y.split(' ')[0]) or b'?') + b'\n' for y in want if isinstance(y, str))
            if isinstance(x, str) and fields(x)['out'] != w:
                ctx.bad('main %s :: stdin:%s' % (h(b'inline-detox'), h(data)), w, fields(x)['out'], 'the default sequence of the program is not safe + wipeup with trailing')
        first = False
        if not ctx.more():
            return


# ------------------------------------------------------------------ tables
def s_table(ctx):
    r = ctx.rng
    while True:
        lines = []
        for _ in range(3000):
            rows = r.choice((0, -1, 1, 1, 2, 3, 4, 5, 7, 8, 16))
            hash_ = r.choice((0, 1, 1))
            t = O.Table(rows)
            keys = [r.choice((r.randint(0, 3 * max(1, rows) + 2), r.randint(1, 255), 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, r.randint(1, 0x10FFFF))) for _ in range(r.randint(1, 3 * max(rows, 1) + 3))]
            words, want = [], []
            for _ in range(r.randint(1, 40)):
                k = r.choice(keys)
                x = r.random()
                if x < .55:
                    v = ctx.value()
                    words.append('p:%d:%s' % (k, h(v)))
                    want.append('%d' % t.put(k, v))
                elif x < .6:
                    k2 = r.choice(keys)
                    words.append('P:%d:%d' % (k, k2))
                    v = t.get(k2)
                    want.append('-1' if v is None else '%d' % t.put(k, v))
                elif x < .97:
                    words.append('g:%d' % k)
                    want.append(h(t.get(k)))
                else:
                    words.append('n')
                    want.append('-1-')
            for k in sorted(set(keys)):
                words.append('g:%d' % k)
                want.append(h(t.get(k)))
            words.append('m')
            want.append(('m', max([len(v) for v in t.m.values()] or [0])))
            lines.append(('table %d %d %s' % (rows, hash_, ' '.join(words)), words, want))
        judge_table(ctx, lines)
        if not ctx.more():
            return


def judge_table(ctx, lines):
    for (l, words, want), a in zip(lines, ctx.ask([l for l, _, _ in lines])):
        if a is None:
            continue
        if isinstance(a, Crash):
            ctx.bad(l, 'no memory error', a, 'table operations')
        got = a.split()
        for i, (w, g) in enumerate(zip(want, got)):
            if isinstance(w, tuple):
                if int(g) < w[1]:
                    ctx.bad(l, 'recorded maximum at least %d' % w[1], g, 'the recorded maximum does not cover every row')
            elif w != g:
                ctx.bad(l, '%s -> %s' % (words[i], w), g, 'operation %d of the history' % i)
        if len(got) != len(want):
            ctx.bad(l, want, a, 'incomplete history')


def dump_parse(s):
    """' len,hash,max,default,k:=v:=got,...'"""
    s = s.strip().split(' ')[0]
    if s == 'none':
        return None
    p = s.split(',')
    d = {}
    for x in p[4:]:
        k, v, g = x.split(':')
        if int(k) in d:
            d[int(k)] = ('twice', d[int(k)], unh(v))
        elif v != g:
            d[int(k)] = ('lookup differs', unh(v), unh(g))
        else:
            d[int(k)] = unh(v)
    return int(p[2]), unh(p[3]), d


def s_tables_load(ctx):
    """C16"""
    r = ctx.rng
    for op, src, limit in (('@safe', 'safe', None), ('@iso', 'iso8859_1', None), ('@unicode', 'unicode', None), ('@cp1252', 'cp1252', None)):
        t = tbl_source(src)
        l = 'builtin %s' % op
        a = ctx.ask([l])[0]
        if isinstance(a, Crash):
            ctx.bad(l, 'a table', a, 'built-in table')
        f = fields(a)
        got = dump_parse(f['ans']) if f['ans'] else None
        if got is None:
            ctx.bad(l, 'a table', f, 'built-in table')
        if got[1] != t.default:
            ctx.bad(l, 'default %r' % t.default, got[1], 'default of the built-in table differs from table/%s.tbl' % src)
        for k in sorted(set(got[2]) | set(t.m)):
            if got[2].get(k) != t.m.get(k):
                ctx.bad(l, 'code 0x%x -> %r' % (k, t.m.get(k)), got[2].get(k), 'built-in table differs from table/%s.tbl' % src)
        if got[0] < max(map(len, t.m.values())):
            ctx.bad(l, 'maximum length covers every row', got[0], 'built-in table')
    # which table a filter gets
    cs = []
    for cl, dflt in (('safe', 'safe'), ('iso8859_1', 'iso8859_1'), ('utf_8', 'unicode')):
        cs.append((cl, None, dflt))
        for b in ('safe', 'iso8859_1', 'unicode', 'cp1252'):
            cs.append((cl, b, b))
    tt = {n: tbl_source(n) for n in ('safe', 'iso8859_1', 'unicode', 'cp1252')}
    for (cl, b, want), a in zip(cs, ctx.ask(['ftable %s %s -' % (cl, h(b.encode() if b else None)) for cl, b, _ in cs])):
        l = 'ftable %s %s -' % (cl, h(b.encode() if b else None))
        if isinstance(a, Crash):
            ctx.bad(l, want, a, 'table of a filter')
        got = dump_parse(fields(a)['ans']) if fields(a)['ans'].strip() else None
        if got is None or got[1] != tt[want].default or got[2] != tt[want].m:
            ctx.bad(l, 'the %s table' % want, a[:200], 'a filter gets another table than the one it names')
    for t in ('nosuch', ''):
        a = ctx.ask(['ftable safe %s -' % h(t.encode())])[0]
        if isinstance(a, str) and fields(a)['code'] == 0:
            ctx.bad('ftable safe %s -' % h(t.encode()), 'an error', a[:200], 'unknown built-in table accepted')
    while True:
        lines = []
        for _ in range(1500):
            rows = r.choice((1, 2, 3, 5, 8, 16))
            t = O.Table(rows)
            words, want = [], []
            d = r.choice((None, None, b'', b'_', ctx.value()))
            words.append('d:' + h(d))
            want.append('d')
            keys = [r.choice((r.randint(1, 3 * rows), r.randint(1, 255), 0xFFFFFFFF, 0x80000001, r.randint(1, 0x10FFFF))) for _ in range(r.randint(1, 2 * rows))]
            for k in keys:
                v = ctx.value()
                words.append('p:%d:%s' % (k, h(v)))
                want.append('%d' % t.put(k, v))
            for _ in range(r.randint(1, 3)):
                n = len(t.m)
                new = r.choice((n, n + 1, 2 * n, n + r.randint(0, 20), 0, 37))
                if new and new < n or new < 0:
                    new = n
                words.append('r:%d:%d' % (new, r.choice((0, 1))))
                want.append('r')
                if r.random() < .5:
                    words.append('F')
                    want.append('F')
                t.cap = new or 500
                words.append('D')
                want.append(h(d))
                for k in sorted(set(keys)) + [r.randint(1, 300)]:
                    words.append('g:%d' % k)
                    want.append(h(t.get(k)))
                words.append('m')
                want.append(('m', max([len(v) for v in t.m.values()] or [0])))
            lines.append(('table %d %d %s' % (rows, r.choice((0, 1)), ' '.join(words)), words, want))
        judge_table(ctx, lines)
        if not ctx.more():
            return


def s_parse_table(ctx):
    r = ctx.rng

    def val():
        k = r.random()
        v = bytes(r.choice(b'abcAB_-.#\\/123') for _ in range(r.choice((1, 1, 2, 3, 10))))
        if k < .4:
            return v
        if k < .7:
            return b'"' + r.choice((v, v, v + b' ' + v, b"a'b", b' ', b'', b'#')) + r.choice((b'"', b'"', b'"', b'" x', b''))
        return b"'" + r.choice((v, v, v + b' ' + v, b'a"b', b' ', b'')) + r.choice((b"'", b"'", b"' y", b''))

    def code():
        c = r.choice((r.randint(1, 255), r.randint(1, 255), r.randint(1, 0x10FFFF), r.randint(1, 9)))
        return c, r.choice((b'%d', b'0x%x', b'0x%X', b'0x%04x', b'0%o')) % c
    fixed = [b'start\n0x41 a\nend\n0x42 b\n', b'0x41 a\nstart\n0x42 "b c"\nend\n', b'start\n0 x\nend\n', b'default ""\nstart\n0x41 ""\nend\n', b'start en_US\n0x41 a\nend\nstart de\n0x42 b\nend\n',
             b'#start\n0x41 a\n', b'start\n0x41 a\nstart\n0x42 b\nEND\n0x43 c\n', b'', b'start\n' + b''.join(b'%d %c\n' % (i, 97 + i % 26) for i in range(1, 499)) + b'end\n',
             b'start\n0x41 a\n#0x42 b\n0x41 bb\nend\ndefault x\n', b'start\ndefault q\nend\n', b'START\n0x41 a\nEnd\n', b'start\n0x80000000 a\nend\n', b'start\n-5 a\n0x41 b\nend\n',
             b'start\n' + b'0x41 ' + b'y' * 900 + b'\nend\n', b' start \n 0x41  a \n end \n0x42 z\n', b'startx\n0x41 a\n', b'start\n0x41 a\nendx\n0x42 b\n', b'default\nstart\n0x41 a',
             b'default x\ndefault\n', b"default 'a b'\n", b'start\n0x41\n0x42 "\n0x43 \'\nend\n', b'default "\nstart\n0x41 b\nend\n']
    loc = [b'en_US.UTF-8', b'C', b'de_DE', b'e', b'', b'NULL']
    first = True
    while True:
        cs = []
        for data in (fixed if first else []):
            for lo in loc[:3]:
                cs.append((data, lo))
        for _ in range(600):
            lines = []
            for _ in range(r.randint(1, 14)):
                k = r.random()
                if k < .5:
                    lines.append(r.choice((b'', b'', b' ', b'\t')) + code()[1] + r.choice((b' ', b'\t', b'  ')) + val())
                elif k < .6:
                    lines.append(r.choice((b'start', b'START', b' start')) + r.choice((b'', b'', b'', b' ', b' en', b' en_US', b' "en_US"', b" 'de'", b' fr', b' C', b' POSIX', b' en_US.UTF-8x')))
                elif k < .7:
                    lines.append(r.choice((b'end', b'END', b' end ', b'ending', b'en')))
                elif k < .78:
                    lines.append(r.choice((b'default', b'Default', b' default')) + r.choice((b'', b' ', b' _', b' ' + val(), b' ' + val())))
                elif k < .86:
                    lines.append(b'#' + r.choice((b'', b' comment', b'0x41 z', b'end', b'start')))
                elif k < .9:
                    lines.append(b'')
                elif k < .93:
                    lines.append(b' # 0x41 q')
                else:
                    lines.append(r.choice((b'garbage here', b'0x41', b'0 zero', b'-3 neg', b'0xZZ a', b'08 b', b'"0x41" a', b'99999999 big', b'0x110000 x', b'2147483647 m')))
            if r.random() < .6:
                lines.insert(0, b'start')
            data = b'\n'.join(lines) + r.choice((b'\n', b'\n', b''))
            cs.append((data, r.choice(loc)))
        q, meta = [], []
        for data, lo in cs:
            t = O.parse_table(data, b'' if lo == b'NULL' else lo)
            q.append('ptable %s - fs:d,2,1,1,=2f74,= fs:f,3,1,1,%s,%s locale:%s' % (h(b'/t/x.tbl'), h(b'/t/x.tbl'), h(data), h(lo)))
            meta.append(t)
        for l, t, a in zip(q, meta, ctx.ask(q)):
            if a is None:
                continue
            if isinstance(a, Crash):
                ctx.bad(l, 'no memory error', a, 'parse_table')
            f = fields(a)
            if f['sig'] or f['code']:
                ctx.bad(l, 'no memory error', 'code %d signal %d %s' % (f['code'], f['sig'], f['err'][:300]), 'parse_table')
            got = dump_parse(f['ans'])
            if t is None:
                if got is not None:
                    ctx.bad(l, None, got, 'a table that cannot be stored was accepted')
            elif got is None or got[1] != t.default or got[2] != t.m:
                ctx.bad(l, (t.default, t.m), got, 'rows or default differ from the table file')
        # odd content: only memory safety
        q = []
        for _ in range(150):
            data = bytes(r.choice((0, 10, 32, 34, 39, 48, 65, 97, 120, 35, r.randint(0, 255))) for _ in range(r.randint(0, 60)))
            if r.random() < .5:
                data = b'start\n0x41 ' + r.choice((b'"', b"'", b'')) + b'z' * r.choice((1000, 1010, 1011, 1012, 1013, 1014, 1015, 1022, 1023, 1024, 2050)) + b'\n' + data
            q.append('ptable %s - fs:d,2,1,1,=2f74,= fs:f,3,1,1,%s,%s locale:%s' % (h(b'/t/x.tbl'), h(b'/t/x.tbl'), h(data), h(b'C')))
        q.append('ptable %s - fs:d,2,1,1,=2f74,=' % h(b'/t/none.tbl'))
        q.append('ptable %s - fs:d,2,1,1,=2f74,= fs:x,3,1,1,%s,=61' % (h(b'/t/x.tbl'), h(b'/t/x.tbl')))
        for i, (l, a) in enumerate(zip(q, ctx.ask(q))):
            if a is None:
                continue
            if isinstance(a, Crash) or fields(a)['sig'] or fields(a)['code']:
                ctx.bad(l, 'no memory error', a if isinstance(a, Crash) else fields(a)['err'][:300], 'parse_table')
            if i >= len(q) - 2 and fields(a)['ans'].strip() != 'none':
                ctx.bad(l, 'no table', fields(a)['ans'], 'a table file that cannot be opened')
        first = False
        if not ctx.more():
            return


# ------------------------------------------------------------------ sequences
def rand_filters(ctx, real=True):
    r = ctx.rng
    out = []
    for _ in range(r.choice((0, 1, 1, 2, 2, 3, 4, 6))):
        f = r.choice(FILTERS)
        n, tr, sp = 0, 0, '-'
        if f == 'max_length':
            n = r.choice((0, 1, 2, 5, 10, 20, 256))
        elif f == 'wipeup':
            tr = r.choice((0, 1))
        elif f in ('safe', 'iso8859_1', 'utf_8'):
            sp = r.choice(('@safe', '@iso', '@cp1252', ctx.table(byte_keys)[1], ctx.table(byte_keys)[1]))
        # unrelated settings must not matter
        n2, tr2, sp2 = n, tr, sp
        if r.random() < .3:
            n2 = n if f == 'max_length' else r.choice((0, 3))
            tr2 = tr if f == 'wipeup' else r.choice((0, 1))
            sp2 = sp if sp != '-' else r.choice(('-', '@safe'))
        out.append((f, str(n) if f == 'max_length' else str(tr) if f == 'wipeup' else sp if sp != '-' else '0', '%s/%d/%d/%s' % (f, n2, tr2, sp2)))
    return out


def s_run(ctx):
    """C15: the sequence against the cleaning steps themselves"""
    while True:
        cs = []
        for _ in range(1500):
            cs.append([rand_filters(ctx), ctx.anyname()])
        q = ['run %s %s' % (h(s), ' '.join(f[2] for f in fl)) for fl, s in cs]
        got = ctx.ask(q)
        cur = [s for _, s in cs]
        for step in range(max(len(fl) for fl, _ in cs)):
            idx = [i for i, (fl, _) in enumerate(cs) if step < len(fl) and cur[i] is not None]
            lines = ['filter %s %s %s' % (cs[i][0][step][0], h(cur[i]), cs[i][0][step][1]) for i in idx]
            for i, a in zip(idx, ctx.ask(lines)):
                cur[i] = unh(a.split(' ')[0]) if isinstance(a, str) and '=' in a else None
        for l, a, want in zip(q, got, cur):
            if want is None or a is None:
                continue
            if isinstance(a, Crash) or unh(a.split(' ')[0]) != want:
                ctx.bad(l, want, a, 'sequence against its filters applied one after the other')
        review_rounds(ctx, 40)
        config_rounds(ctx, 40)
        if not ctx.more():
            return


def review_rounds(ctx, n):
    """each filter of a sequence gets the table it gets when it is alone"""
    r = ctx.rng
    setup = 'fs:d,2,1,1,=2f74,= ' + ' '.join('fs:f,%d,1,1,%s,%s' % (10 + i, h(p), h(t)) for i, (p, t) in enumerate((
        (b'/t/a', b'default _\nstart\n0x20 X\n0xe4 "ae"\nend\n'), (b'/t/b', b'start\n0x20 "yy"\n0x26 &\nend\n'), (b'/t/c', b'start\nend\n'))))
    pool = [('wipeup', None, None), ('lower', None, None), ('uncgi', None, None), ('max_length', None, None)]
    for cl in ('safe', 'iso8859_1', 'utf_8'):
        pool += [(cl, b, None) for b in (None, b'safe', b'iso8859_1', b'unicode', b'cp1252')] + [(cl, None, f) for f in (b'/t/a', b'/t/b', b'/t/c')]
    w = lambda f: '%s,%s,%s' % (f[0], h(f[1]), h(f[2]))
    alone = {}
    for f, a in zip(pool, ctx.ask(['review one %s :: %s' % (w(f), setup) for f in pool])):
        if isinstance(a, str):
            alone[f] = fields(a)['ans'].strip()
    cs = []
    for _ in range(n):
        fl = [r.choice(pool) for _ in range(r.choice((1, 2, 2, 3, 4, 6)))]
        if r.random() < .5:
            fl = [r.choice([f for f in pool if f[0] == fl[0][0]]) if r.random() < .7 else f for f in fl]
        if all(f in alone for f in fl):
            cs.append(('review seq %s :: %s' % (' '.join(map(w, fl)), setup), ' '.join(alone[f] for f in fl)))
    for (l, e), a in zip(cs, ctx.ask([c[0] for c in cs])):
        if a is not None and (isinstance(a, Crash) or fields(a)['ans'].strip() != e):
            ctx.bad(l, e, a, 'tables of the filters of a sequence')


WRONG = [b'sequence x { };', b'sequence { wipeup; };', b'wipeup;', b'sequence x { wipeup };', b'ignore { };', b'sequence a { safe; }', b'sequence a { max_length { length x; }; };',
         b'sequence a { foo; };', b'sequence a { safe { filename ; }; };', b'sequence a { wipeup { length 3; }; };', b'ignore { filename 12; };', b'sequence "a" safe;', b'sequence a { lower { }; };']


def odd_configs(ctx, n):
    """errors of syntax, zero bytes and odd ends: reported, and no memory is touched that is not the program's own"""
    r = ctx.rng
    cs = []
    for _ in range(n):
        t = config_text(ctx, ([], []))
        bad = r.random() < .5
        if bad:
            t += r.choice(WRONG) + b'\n'
        else:
            k = r.randrange(4)
            if k == 0 and b'"' in t:
                q = [i for i, c in enumerate(t) if c == 34]
                i = r.choice(q)
                t = t[:i + 1] + r.choice((b'\0', b'x\0', b'\0' * 9, b'\0' + b'y' * 60)) + t[i + 1:]
            elif k == 1:
                t = t[:r.randint(0, len(t))]
            elif k == 2:
                i = r.randint(0, len(t))
                t = t[:i] + r.choice((b'"', b'\0', b'"\n', b'\xff', b'{', b'};', b'#', b'""')) + t[i:]
            else:
                t += b'ignore { filename "' + b'z' * r.randint(0, 200) + r.choice((b'\0', b'')) + b'z' * r.randint(0, 100) + r.choice((b'"', b'\n', b'')) + b'; };\n'
        cs.append(('config %s fs:d,2,1,1,=2f63,= fs:f,10,1,1,%s,%s' % (h(b'/c/0'), h(b'/c/0'), h(t)), bad))
    for (l, e), a in zip(cs, ctx.ask([c[0] for c in cs])):
        if a is None:
            continue
        if isinstance(a, Crash):
            ctx.bad(l, 'the configuration or an error', a, 'reading a configuration file')
        f = fields(a)
        if f['sig'] or f['code'] == 99 or e and (not f['code'] or not f['err']) or f['code'] and not f['err']:
            ctx.bad(l, 'an error' if e else 'the configuration or an error', f, 'reading a configuration file')


def s_choose(ctx):
    r = ctx.rng
    pool = [b'default', b'Default', b'defaul', b'default2', b'utf_8', b'a', b'b', b'', b'default ', b'lower-only']
    while True:
        cs = []
        for _ in range(1500):
            names = r.sample(pool, r.randint(0, 6))
            want = r.choice((None, None, r.choice(pool), ctx.name(b'ab')))
            if want is None:
                e = names.index(b'default') if b'default' in names else (0 if names else -1)
            else:
                e = names.index(want) if want in names else -1
            cs.append(('choose %s %s' % (h(want), ' '.join(h(n) for n in names)), str(e)))
        for (l, e), a in zip(cs, ctx.ask([c[0] for c in cs])):
            if a is not None and (isinstance(a, Crash) or a.strip() != e):
                ctx.bad(l, e, a, 'chosen sequence')
        config_rounds(ctx, 250)
        odd_configs(ctx, 150)
        if not ctx.more():
            return


FTEXT = [('safe;', ('safe', None, None, 0, 0)), ('Wipeup\n{ Remove_Trailing; } ;', ('wipeup', None, None, 0, 1)), ('LOWER;', ('lower', None, None, 0, 0)), ('safe {};', ('safe', None, None, 0, 0)), ('safe { builtin "safe"; };', ('safe', b'safe', None, 0, 0)), ('safe { filename "/x/y.tbl"; };', ('safe', None, b'/x/y.tbl', 0, 0)),
         ('wipeup;', ('wipeup', None, None, 0, 0)), ('wipeup { remove_trailing; };', ('wipeup', None, None, 0, 1)), ('lower;', ('lower', None, None, 0, 0)), ('uncgi;', ('uncgi', None, None, 0, 0)),
         ('max_length;', ('max_length', None, None, 0, 0)), ('max_length { length 12; };', ('max_length', None, None, 12, 0)), ('max_length { length 300; };', ('max_length', None, None, 300, 0)),
         ('utf_8;', ('utf_8', None, None, 0, 0)), ('utf_8 { filename "u.tbl"; };', ('utf_8', None, b'u.tbl', 0, 0)), ('utf_8 { builtin "unicode"; };', ('utf_8', b'unicode', None, 0, 0)),
         ('iso8859_1 { builtin "cp1252"; };', ('iso8859_1', b'cp1252', None, 0, 0)), ('iso8859_1;', ('iso8859_1', None, None, 0, 0)), ('iso8859_1 { filename "q"; };', ('iso8859_1', None, b'q', 0, 0))]


def config_text(ctx, state):
    """random configuration file; state: ordered [(name, filters)] and ignore list, updated"""
    r = ctx.rng
    seqs, ign = state
    t = ''
    for _ in range(r.choice((0, 1, 1, 2, 3, 4))):
        n = r.choice(('default', 'one', 'two', 'three', 'utf_8', 'a-b', 'x y', 'safe', 'ab'))
        fl = [r.choice(FTEXT) for _ in range(r.randint(1, 4))]
        nm = n if re.fullmatch('[a-z]+', n) and n != 'safe' and r.random() < .3 else '"%s"' % n
        t += 'sequence %s {\n' % nm + r.choice(('', '# comment\n')) + '\n'.join('\t' + f[0] for f in fl) + '\n};\n'
        for e in seqs:
            if e[0] == n.encode():
                e[1] = [f[1] for f in fl]
                break
        else:
            seqs.append([n.encode(), [f[1] for f in fl]])
    if r.random() < .4:
        fs = [r.choice((b'{arch}', b'CVS', b'x y', b'.svn')) for _ in range(r.randint(1, 3))]
        t += 'ignore {\n' + ''.join('\tfilename "%s";\n' % f.decode() for f in fs) + '};\n'
        ign += fs
    return t.encode()


def want_dump(seqs, ign, ctx=None):
    return [(n, [tuple(f) for f in fl]) for n, fl in seqs], list(ign)


def read_dump(s):
    if s.strip() == 'none':
        return None
    seqs, ign = [], []
    src = []
    for w in s.split(' '):
        p = w.split(':')
        if p[0] == 'S':
            seqs.append((unh(p[1]), []))
            src.append(unh(p[2]))
        elif p[0] == 'F':
            seqs[-1][1].append((p[1], unh(p[2]), unh(p[3]), int(p[4]), int(p[5])))
        elif p[0] == 'I' and p[1] != 'none':
            ign.append(unh(p[1]))
    return seqs, ign, src


def config_rounds(ctx, n):
    r = ctx.rng
    cs = []
    for _ in range(n):
        st = ([], [])
        k = r.randint(1, 3)
        w = ['fs:d,2,1,1,=2f63,=']
        ps = []
        for i in range(k):
            p = b'/c/%d' % i
            w.append('fs:f,%d,1,1,%s,%s' % (10 + i, h(p), h(config_text(ctx, st))))
            ps.append(h(p))
        cs.append(('config %s %s' % (','.join(ps), ' '.join(w)), want_dump(*st)))
    for (l, e), a in zip(cs, ctx.ask([c[0] for c in cs])):
        if a is None:
            continue
        if isinstance(a, Crash):
            ctx.bad(l, e, a, 'configuration')
        f = fields(a)
        g = read_dump(f['ans']) if not f['code'] and not f['sig'] else None
        if g is None or list(g[0]) != e[0] or g[1] != e[1]:
            ctx.bad(l, e, g or f['err'][:300], 'sequences defined by the configuration files')


def s_spoof(ctx):
    """C23"""
    want = [(n.encode(), [(f, b.encode() if b else None, None, ln, tr) for f, b, ln, tr in fl]) for n, fl in O.BUILTIN_CONFIG]
    a = ctx.ask(['load -'])[0]
    f = fields(a) if isinstance(a, str) else None
    g = read_dump(f['ans']) if f and f['ans'] else None
    if g is None or list(g[0]) != want or g[1] != [b'{arch}']:
        ctx.bad('load -', want, g if g else a, 'built-in configuration')
    cs = []
    names = [n for n, _ in O.BUILTIN_CONFIG]
    data = b'a b&c..-d\n\xe9\xc3\xa9 %41+x\nABC-\x80\n-_x.tar.gz\n\xe2\x82\xac\n'
    T = {n: tbl_source(n) for n in ('safe', 'iso8859_1', 'unicode', 'cp1252')}
    q = ['main %s %s %s :: stdin:%s' % (h(b'inline-detox'), h(b'-s'), h(n.encode()), h(data)) for n in names]
    runs = []
    for n, fl in O.BUILTIN_CONFIG:
        spec = ' '.join('%s/%d/%d/%s' % (x, ln, tr, ('@' + {'iso8859_1': 'iso'}.get(b, b)) if b else '-') for x, b, ln, tr in fl)
        runs.append(['run %s %s' % (h(p), spec) for p in data.split(b'\n')[:-1]])
    for l, rr, a in zip(q, runs, ctx.ask(q)):
        w = b''.join((unh(x.split(' ')[0]) or b'') + b'\n' for x in ctx.ask(rr) if isinstance(x, str))
        if isinstance(a, str) and fields(a)['out'] != w:
            ctx.bad(l, w, fields(a)['out'], 'built-in sequence used by the program')
    a = ctx.ask(['main %s %s ::' % (h(b'detox'), h(b'-L'))])[0]
    w = b'available sequences:\n' + b''.join(b'\t%s%s\n' % (n.encode(), b' (*)' if n == 'default' else b'') for n in names) + b'\nfiles to ignore:\n\t{arch}\n'
    if isinstance(a, str) and fields(a)['out'] != w:
        ctx.bad('main %s %s ::' % (h(b'detox'), h(b'-L')), w, fields(a)['out'], 'listing of the built-in configuration')


def s_load(ctx):
    """C24"""
    r = ctx.rng
    n = 0
    while True:
        cs = []
        for it in range(300):
            n += 1
            st = None
            w = ['fs:d,2,1,1,=2f,=']
            dirs = {b'/usr', b'/usr/local', b'/usr/local/etc', b'/etc', b'/home', b'/home/u', b'/xdg', b'/xdg/detox', b'/c'}
            home = r.choice((None, b'/home/u', b'/home/u', b'', b'/' + b'h' * r.choice((240, 244, 245, 246, 247, 250, 255, 256, 300))))
            xdg = r.choice((None, b'/xdg', b'/xdg', b'', b'/' + b'x' * r.choice((230, 238, 239, 240, 241, 242, 256, 300))))
            paths = [b'/usr/local/etc/detoxrc', b'/etc/detoxrc', None if home is None else home + b'/.detoxrc', None if xdg is None else xdg + b'/detox/detoxrc']
            files = {}
            for i, p in enumerate(paths):
                if p is not None and r.random() < .55:
                    files[p] = None
                if p is not None and len(p) >= 256 and r.random() < .5:
                    files[p[:255]] = None           # never to be used
            explicit = r.choice((None, None, None, b'/c/rc', b'/c/missing', b'/c/dir/../rc'[:5]))
            if r.random() < .5:
                files[b'/c/rc'] = None
            order = []
            if explicit is not None:
                order = [explicit] if explicit in files else None
            else:
                sysf = [p for p in paths[:2] if p in files]
                order = sysf[:1] + [p for p in paths[2:] if p is not None and p in files and len(p) < 256]
            st = ([], [])
            txt = {}
            if order:
                for p in order:
                    txt[p] = config_text(ctx, st)
            for p in files:
                if p not in txt:
                    txt[p] = config_text(ctx, ([], []))
            for d in sorted(dirs | ({home} if home and len(home) > 10 else set()) | ({xdg, xdg + b'/detox'} if xdg and len(xdg) > 10 else set())):
                w.append('fs:d,3,1,1,%s,=' % h(d))
            w.append('fs:d,4,1,1,%s,=' % h(b'/detox'))
            for i, (p, t) in enumerate(txt.items()):
                w.append('fs:f,%d,1,1,%s,%s' % (20 + i, h(p), h(t)))
            if home is not None:
                w.append('env:HOME,' + h(home))
            if xdg is not None:
                w.append('env:XDG_CONFIG_HOME,' + h(xdg))
            e = None if order is None else 'spoof' if not order else want_dump(*st)
            cs.append(('load %s %s' % (h(explicit), ' '.join(w)), e))
        sp = [(nm.encode(), [(f, b.encode() if b else None, None, ln, tr) for f, b, ln, tr in fl]) for nm, fl in O.BUILTIN_CONFIG]
        base = ctx.ask(['load -'])[0]
        spoof = read_dump(fields(base)['ans']) if isinstance(base, str) else None
        for (l, e), a in zip(cs, ctx.ask([c[0] for c in cs])):
            if a is None:
                continue
            if isinstance(a, Crash):
                ctx.bad(l, e, a, 'configuration lookup')
            f = fields(a)
            if f['sig']:
                ctx.bad(l, e, 'signal %d %s' % (f['sig'], f['err'][:200]), 'configuration lookup')
            if e is None:
                if f['code'] != 1 or f['ans']:
                    ctx.bad(l, 'exit 1', f, 'missing explicit configuration file')
                continue
            g = read_dump(f['ans']) if not f['code'] and not f['sig'] else None
            if e == 'spoof':
                if spoof is not None and g != spoof:
                    ctx.bad(l, 'built-in configuration', g, 'no configuration file readable')
            elif g is None or list(g[0]) != e[0] or g[1] != e[1]:
                ctx.bad(l, e, g, 'configuration files used')
        if not ctx.more():
            return


# ------------------------------------------------------------------ lists, options, memory
def s_list(ctx):
    r = ctx.rng
    while True:
        cs = []
        for _ in range(2000):
            items, pos = [], 0
            words, want = [], []
            big = r.random() < .3
            for _ in range(r.randint(1, 60 if big else 16)):
                x = r.random()
                if x < (.75 if big else .4):
                    v = ctx.name(n=r.randint(0, 4), slash=True)
                    items.append(v)
                    pos = 0
                    words.append('p:' + h(v))
                    want.append('p')
                elif x < .9:
                    words.append('g')
                    if not items or pos == len(items):
                        want.append('-')
                        pos = 0
                    else:
                        want.append(h(items[pos]))
                        pos += 1
                elif x < .95:
                    words.append('r')
                    want.append('r')
                    pos = 0
                else:
                    words.append('c')
                    want.append(str(len(items)))
            for _ in range(2):
                for k in range(len(items) + 1):
                    words.append('g')
                    if not items or pos == len(items):
                        want.append('-')
                        pos = 0
                    else:
                        want.append(h(items[pos]))
                        pos += 1
            words.append('n')
            want.append('-0')
            cs.append(('list ' + ' '.join(words), words, want))
        for (l, words, want), a in zip(cs, ctx.ask([c[0] for c in cs])):
            if a is None:
                continue
            if isinstance(a, Crash):
                ctx.bad(l, want, a, 'file list')
            if a.split() != want:
                ctx.bad(l, want, a.split(), 'file list history')
        if not ctx.more():
            return


def s_oom(ctx):
    r = ctx.rng
    while True:
        q = []
        for f in FILTERS + ('malloc', 'strdup'):
            for n in range(1, 5):
                for s in (b'', b'Ab', b'a.b.c' * 60, b'-_x', b'\xc3\xa9\xff'):
                    arg = '500,1,%s,97:=7878' % h(b'_') if f in ('safe', 'iso8859_1', 'utf_8') else r.choice(('0', '3', '4', '100')) if f != 'malloc' else r.choice(('1', '100', '3000000000'))
                    q.append(('oomfilter %d %s %s %s' % (n, f, h(s), arg), n))
                    if f in ('malloc', 'strdup'):
                        q += [('oomfilter %d %s %s %s' % (n + e, f, h(s), arg), n) for e in (1000, 2000)]
        for w in ('table', 'list', 'spoof', 'options', 'run'):
            for n in range(1, 60):
                q.append(('oomstruct %d %s' % (n, w), n))
        cf = h(b'sequence "a" { safe { filename "/t"; }; wipeup; };\nsequence b { lower; };\nignore { filename x; };\n')
        for n in list(range(1, 100)):
            q.append(('config =2f63 failalloc:%d fs:f,3,1,1,=2f63,%s' % (n, cf), n))
        for n in range(1, 60, 3):
            q.append(('main =6465746f78 =612062 :: failalloc:%d fs:f,3,1,1,=612062,=' % n, n))
            q.append(('main =6465746f78 =2d72 =64 :: failalloc:%d fs:d,3,1,1,=64,= fs:f,4,1,1,=642f612062,= fs:d,5,1,1,=642f7861,=' % n, n))
        for (l, n), a in zip(q, ctx.ask([x[0] for x in q])):
            if a is None:
                continue
            if isinstance(a, Crash):
                ctx.bad(l, 'exit with an error', a, 'allocation failure')
            f = fields(a)
            if f['sig'] or f['code'] == 99:
                ctx.bad(l, 'exit with an error', 'signal %d code %d %s' % (f['sig'], f['code'], f['err'][:300]), 'continues after a failed allocation')
            if f['code'] == 0 and l.startswith('oom'):
                cnt = int(f['ans'].split()[0]) if f['ans'] else 0
                if cnt >= n:
                    ctx.bad(l, 'exit with an error', f['ans'], 'a failed allocation is not reported')
            if f['code'] != 0 and not f['err']:
                ctx.bad(l, 'a message', f, 'the failure is not reported')
            if l.startswith('main') and f['code'] != 0:
                for e in f['events']:
                    if e[0].startswith('rename!'):
                        ctx.bad(l, 'nothing damaged', f['events'], 'allocation failure')
        if not ctx.more():
            return


def s_options(ctx):
    r = ctx.rng
    toks = ['-n', '--dry-run', '-r', '--recursive', '--special', '-L', '-v', '--verbose', '--inline', 's', 'f', 'file', 'file', '-nr', '-vv', '-rn', 's-', 'f-', '-nv', '--', '-Lv']
    singles = [[t] for t in toks if t not in ('s', 'f', 's-', 'f-', 'file')]
    first = True
    while True:
        cs = []
        plans = [s + ['file'] for s in singles] + singles + [['file']] + [[a, b, 'file'] for a in toks for b in toks] if first else []
        for _ in range(1500):
            plans.append([r.choice(toks) for _ in range(r.randint(0, 6))])
        for plan in plans:
            inl = r.random() < .2
            argv0 = r.choice((b'inline-detox', b'/usr/bin/inline-detox', b'./inline-detox')) if inl else r.choice((b'detox', b'/x/detox', b'inline-detoxx', b'/inline-detox/detox', b'xinline-detox'))
            env = r.choice((None, None, b'envseq', b''))
            argv = [argv0]
            o = dict(n=0, r=0, sp=0, L=0, v=0, inline=int(inl), s=env, f=None, files=[])
            rest = False
            ended = False
            for t in plan:
                if t == 's':
                    v = r.choice((b'utf_8', b'x', b'-n', b'default'))
                    argv += [b'-s', v]
                    if not ended:
                        o['s'] = v
                    else:
                        o['files'] += [b'-s', v]
                elif t == 's-':
                    v = r.choice((b'q', b'lower-only'))
                    argv += [b'-s' + v]
                    if not ended:
                        o['s'] = v
                    else:
                        o['files'] += [b'-s' + v]
                elif t == 'f':
                    v = r.choice((b'/c', b'rc', b'-r'))
                    argv += [b'-f', v]
                    if not ended:
                        o['f'] = v
                    else:
                        o['files'] += [b'-f', v]
                elif t == 'f-':
                    argv += [b'-fabc']
                    if not ended:
                        o['f'] = b'abc'
                    else:
                        o['files'] += [b'-fabc']
                elif t == 'file':
                    v = r.choice((b'a', b'b c', b'dir/x', b'', b'-', b'a', b'~'))
                    argv.append(v)
                    o['files'].append(v)
                else:
                    argv.append(t.encode())
                    if ended:
                        o['files'].append(t.encode())
                    elif t == '--':
                        ended = True
                    elif t.startswith('--'):
                        k = {'--dry-run': 'n', '--recursive': 'r', '--special': 'sp', '--verbose': 'v', '--inline': 'inline'}[t]
                        o[k] = o[k] + 1 if k == 'v' else 1
                    else:
                        for c in t[1:]:
                            o[c] = o[c] + 1 if c == 'v' else 1
            if o['L']:
                e = 'nofiles'
            elif not o['files'] and not o['inline']:
                e = None
            else:
                e = 'files'
            w = None if e is None else '%d %d %d %d %d %d %d %s %s' % (o['n'], inl, o['inline'], o['L'], o['r'], o['sp'], o['v'], h(o['s']), h(o['f']))
            if e == 'files':
                w += ' files' + ''.join(' ' + h(x) for x in o['files'])
            cs.append(('options %s ::%s' % (' '.join(h(x) for x in argv), '' if env is None else ' env:DETOX_SEQUENCE,' + h(env)), w, e))
        for (l, w, e), a in zip(cs, ctx.ask([c[0] for c in cs])):
            if a is None:
                continue
            if isinstance(a, Crash):
                ctx.bad(l, w, a, 'options')
            f = fields(a)
            if w is None:
                if f['code'] != 1 or f['ans']:
                    ctx.bad(l, 'usage and exit 1', f['ans'] or f['code'], 'no file given')
                continue
            g = f['ans']
            if e == 'nofiles':
                g = ' '.join(g.split(' ')[:9])
            if g != w:
                ctx.bad(l, w, f['ans'], 'options')
        # help, version, unknown: nothing is processed
        for arg in (b'-h', b'--help', b'-V', b'-?', b'--nosuch', b'-z'):
            l = 'main =6465746f78 %s =612062 :: fs:f,3,1,1,=612062,=' % h(arg)
            a = ctx.ask([l])[0]
            if isinstance(a, str):
                f = fields(a)
                if any(e[0].startswith('rename') for e in f['events']):
                    ctx.bad(l, 'nothing renamed', f['events'], 'help, version or an unknown option')
                if arg in (b'-h', b'--help', b'-V') and (f['code'] or not f['out']):
                    ctx.bad(l, 'a message and success', f, 'help or version')
        first = False
        if not ctx.more():
            return


# ------------------------------------------------------------------ inline mode
def s_inline(ctx):
    r = ctx.rng
    while True:
        jobs = []
        for _ in range(120):
            long_ = r.random() < .6
            lines = []
            for _ in range(r.randint(0, 5)):
                if long_ and r.random() < .6:
                    n = r.choice((1000, 1006, 1007, 1008, 1009, 1010, 1014, 1020, 1023, 1024, 1025, 2014, 2016, 3000)) + r.randint(-8, 8)
                    k = r.random()
                    if k < .5:
                        u = r.choice((b'\xc3\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\xf8\x88\x80\x80\x80', b'\xfc\x84\x80\x80\x80\x80'))
                        s = b'a' * r.randint(0, 7) + u * (n // len(u) + 1)
                    elif k < .7:
                        s = b'x' * n
                    else:
                        s = ctx.name(b'\xc3\xa9\xe2\x82\xacab\x80\xff\xf0\xfc', True, n=n)
                else:
                    s = r.choice((ctx.name(slash=True), b'.', b'..', b'', b' ', b'...', b'A B', b'\x80', b'\xbf' * 9))
                lines.append(s.replace(b'\n', b' '))
            data = b'\n'.join(lines) + r.choice((b'\n', b'\n', b''))
            short = all(len(x) < 900 for x in lines)
            seq = r.choice(('utf_8-only', 'iso8859_1-only', 'lower-only', 'lower-only') + (('default', 'uncgi', 'utf_8', 'lower', 'uncgi-only') if short else ()))
            jobs.append((data, lines, seq))
        q, want_lines, spans, loud = [], [], [], []
        for data, lines, seq in jobs:
            # the other options change nothing; with -v something may be said first
            extra = r.choice(([], [], [b'-v'], [b'-v', b'-v'], [b'-n'], [b'-r'], [b'--special'], [b'-n', b'-v', b'-r']))
            if r.random() < .5:
                q.append('main %s %s %s :: stdin:%s' % (' '.join(map(h, [b'inline-detox'] + extra)), h(b'-s'), h(seq.encode()), h(data)))
            else:
                q.append('main %s %s %s %s %s :: fs:f,9,1,1,%s,%s' % (' '.join(map(h, [b'detox'] + extra)), h(b'--inline'), h(b'-s'), h(seq.encode()), h(b'in'), h(b'in'), h(data)))
            loud.append(b'-v' in extra)
            fl = dict(O.BUILTIN_CONFIG)[seq]
            spec = ' '.join('%s/%d/%d/%s' % (x, ln, tr, ('@' + {'iso8859_1': 'iso'}.get(b, b)) if b else '-') for x, b, ln, tr in fl)
            ls = data.split(b'\n')
            spans.append((len(want_lines), len(ls), data))
            want_lines += ['run %s %s' % (h(x), spec) for x in ls]
        got = ctx.ask(q)
        cl = ctx.ask(want_lines)
        for l, (i, n, data), a, lo in zip(q, spans, got, loud):
            if a is None:
                continue
            if isinstance(a, Crash):
                ctx.bad(l, 'no memory error', a, 'inline mode')
            f = fields(a)
            if f['sig'] or f['code']:
                ctx.bad(l, 'no memory error', 'signal %d code %d %s' % (f['sig'], f['code'], f['err'][-600:]), 'inline mode')
            ls = data.split(b'\n')
            outs = []
            ok = True
            for x, c in zip(ls, cl[i:i + n]):
                if x in (b'.', b'..', b''):
                    outs.append(x)
                elif isinstance(c, str) and '=' in c:
                    outs.append(unh(c.split(' ')[0]))
                else:
                    ok = False
            if ok and not (f['out'].endswith(b'\n'.join(outs)) if lo else f['out'] == b'\n'.join(outs)):
                ctx.bad(l, b'\n'.join(outs), f['out'], 'output of inline mode')
        # any content, including NUL: memory only
        q = []
        for _ in range(60):
            n = r.choice((0, 1, 5, 100, 1005, 1006, 1007, 1008, 1010, 2014))
            data = bytes(r.choice((0, 0x80, 0xBF, 0xC3, 0xE2, 0xFC, 10, 65, r.randint(0, 255))) for _ in range(n))
            if r.random() < .5:
                data = b'x' * r.randint(998, 1007) + data
            q.append('main %s %s %s :: stdin:%s' % (h(b'inline-detox'), h(b'-s'), h(r.choice((b'lower-only', b'utf_8'))), h(data)))
        for l, a in zip(q, ctx.ask(q)):
            if a is not None and (isinstance(a, Crash) or fields(a)['sig'] or fields(a)['code']):
                ctx.bad(l, 'no memory error', a if isinstance(a, Crash) else fields(a)['err'][-600:], 'inline mode')
        if not ctx.more():
            return


# ------------------------------------------------------------------ the file system
class FS:
    """mirror of the driver's stand-in"""
    def __init__(self):
        self.n = []         # [path, type, ino, dev, nlink, data, live]

    def add(self, typ, path, ino, dev=1, nlink=1, data=b''):
        self.n.append([path, typ, ino, dev, nlink, data, True])

    def words(self):
        return ['fs:%s,%d,%d,%d,%s,%s' % (t, i, d, l, h(p), h(x)) for p, t, i, d, l, x, _ in self.n]

    @staticmethod
    def canon(p):
        c = [x for x in p.split(b'/') if x and x != b'.']
        s = (b'/' if p[:1] == b'/' else b'') + b'/'.join(c)
        return s or b'.'

    def at(self, c):
        for n in self.n:
            if n[6] and n[0] == c:
                return n

    def resolve(self, p, last, depth=0):
        if not p or depth > 9:
            return None
        c = self.canon(p)
        i = 1
        while True:
            i = c.find(b'/', i)
            if i < 0:
                break
            n = self.at(c[:i])
            if n is None:
                return None
            if n[1] == 'l':
                return self.resolve(n[5] + b'/' + c[i + 1:], last, depth + 1)
            if n[1] != 'd':
                return None
            i += 1
        n = self.at(c)
        if n is None:
            return None
        if (last or p[-1:] == b'/') and n[1] == 'l':
            return self.resolve(n[5], True, depth + 1)
        if p[-1:] == b'/' and n[1] != 'd':
            return None
        return n

    def lstat(self, p):
        return self.resolve(p, False)

    def rename(self, a, b):
        n = self.resolve(a, False)
        if n is None or not b:
            return False
        m = self.resolve(b, False)
        cb = self.canon(b)
        if m is None:
            d, s, l = cb.rpartition(b'/')
            if s and d:
                dn = self.resolve(d, True)
                if dn is None or dn[1] != 'd':
                    return False
                cb = dn[0] + b'/' + l
            if b[-1:] == b'/' and n[1] != 'd':
                return False
        else:
            if m is not n and m[2:4] == n[2:4] and n[4] > 1:
                return True
            cb = m[0]
            if m is not n and m[2:4] != n[2:4] and m[1] == 'd':
                return False
            if m is not n:
                m[6] = False
        ca = n[0]
        for x in self.n:
            if x[6] and (x[0] == ca or x[0].startswith(ca + b'/')):
                x[0] = cb + x[0][len(ca):]
        return True

    def listdir(self, p):
        d = self.resolve(p, True)
        if d is None or d[1] != 'd':
            return None
        out = []
        for x in self.n:
            if not x[6]:
                continue
            q = x[0]
            if d[0] == b'.':
                if q != b'.' and b'/' not in q:
                    out.append(q)
            elif q.startswith(d[0] + b'/') and b'/' not in q[len(d[0]) + 1:] and len(q) > len(d[0]) + 1:
                out.append(q[len(d[0]) + 1:])
        return out


class Sim:
    def __init__(self, fs, clean, dry, rec, special, verbose, ignore, failrename=-1, nodir=None):
        self.fs, self.clean, self.dry, self.rec, self.special, self.verbose, self.ignore = fs, clean, dry, rec, special, verbose, ignore
        self.renames, self.out, self.opened = [], [], []
        self.fail, self.calls = failrename, 0
        self.nodir = nodir
        self.errs = 0
        self.touched = []

    def file(self, p):
        d, s, c = p.rpartition(b'/')
        self.touched.append(p)
        if c in (b'.', b'..'):
            return p
        n = self.clean(c)
        if n is None or n == c:
            return p
        if b'/' in n:
            self.errs += 1
            return p
        q = d + s + n
        a = self.fs.lstat(p)
        if a is None:
            return p
        b = self.fs.lstat(q)
        if b is not None and (a[2:4] != b[2:4] or a[4] > 1):
            self.errs += 1
            return p
        if self.verbose or self.dry:
            self.out.append(p + b' -> ' + q)
        if self.dry:
            return p
        self.calls += 1
        ok = self.calls != self.fail and self.fs.rename(p, q)
        self.renames.append((p, q, ok))
        if not ok:
            self.errs += 1
            return p
        return q

    def dir(self, p):
        n = self.fs.lstat(p)
        if n is None or n[1] != 'd':
            return
        if self.nodir is not None and n[0] == self.nodir:
            self.errs += 1
            return
        names = self.fs.listdir(p)
        self.opened.append(p)
        for x in names:
            if x[:1] == b'.' or x in self.ignore:
                continue
            q = p + b'/' + x
            k = self.fs.lstat(q)
            if k is None:
                continue
            if k[1] == 'd':
                w = self.file(q)
                if self.rec:
                    self.dir(w)
            elif k[1] in 'fx' or self.special:
                self.file(q)

    def arg(self, p):
        if self.verbose:
            self.out.append(b'Scanning: ' + p)
        n = self.fs.lstat(p)
        if n is None:
            self.errs += 1
            return
        if n[1] == 'd':
            self.dir(self.file(p))
        elif n[1] in 'fx' or self.special:
            self.file(p)


def rand_fs(ctx):
    """a small tree; names collide often"""
    r = ctx.rng
    fs = FS()
    ino = [100]

    def new():
        ino[0] += 1
        return ino[0]
    comps = [b'a b', b'a_b', b'a  b', b'a&b', b'a-b', b'a', b'A', b'a.', b'..a', b'.h', b'.a b', b'{arch}', b'CVS', b'-x', b'x', b'_', b'__', b'-', b' ', b'#', b'a(b)', b'(a b)', b'a..b', b'%41', b'a%2fb', b'%2e', b'%2e%2e', b'a+b', b'\xc3\xa9', b'caf\xc3\xa9 x',
             b'AB C', b'ab c', b'~', b'a\tb', b'a\nb', b'...', b'_.', b'-.', b'z' * 40 + b' ', b'{arch} x', b'_{arch}_', b'ar ch', b'Q' * 250 + b' z']

    def fill(p, depth):
        names = r.sample(comps, r.randint(0, 6 if depth else 7))
        names += [x for x in (ctx.name(n=r.randint(1, 5)) for _ in range(r.randint(0, 2))) if x not in (b'.', b'..') and x not in names]
        linked = None
        for x in names:
            q = p + x if not p or p == b'/' else p + b'/' + x
            if fs.at(FS.canon(q)) is not None or x in (b'.', b'..', b''):
                continue
            k = r.random()
            if k < .3 and depth < 3:
                fs.add('d', q, new(), r.choice((1, 1, 1, 2)), 2)
                fill(q, depth + 1)
            elif k < .72:
                if linked and r.random() < .3:
                    fs.add('f', q, linked[0], linked[1], 2)
                else:
                    i = new()
                    d = r.choice((1, 1, 1, 2))
                    if r.random() < .2:
                        linked = (i, d)
                        fs.add('f', q, i, d, 2)
                    elif r.random() < .1 and fs.n:
                        # other device, same inode number
                        fs.add('f', q, r.choice(fs.n)[2], 7, 1)
                    else:
                        fs.add('f', q, i, d, 1)
            elif k < .88:
                fs.add('l', q, new(), 1, 1, r.choice([b'nowhere', b'.', b'd', q[:0] + b'd/sub'] + [n[0] for n in fs.n]))
            else:
                fs.add(r.choice('psc'), q, new(), 1, 1)
    fs.add('d', b'.', new(), 1, 2)
    fs.add('d', b'd', new(), 1, 2)
    fill(b'd', 1)
    fill(b'', 2)
    if r.random() < .4:
        fs.add('d', b'/r x', new(), 1, 2)
        fill(b'/r x', 2)
    return fs


CONF = {'conf': (b'sequence "default" { safe { filename "/cfg/t"; }; };\nignore { filename "{arch}"; filename "CVS"; filename "ar ch"; };\n', [('safe', 0, '500,1,-,32:=5f,97:=41,98:=2f', )]),
        'conf2': (b'sequence "x" { safe { filename "/cfg/t2"; }; wipeup; };\nignore { filename "CVS"; filename "a b"; };\n', [('safe', 0, '500,1,-,32:=5f,38:=5f'), ('wipeup', 0, '-')])}
TBLS = {b'/cfg/t': b'start\n0x20 _\n0x61 A\n0x62 /\nend\n', b'/cfg/t2': b'start\n0x20 _\n0x26 _\nend\n'}


def s_files(ctx):
    r = ctx.rng
    P = ctx.prop
    while True:
        jobs = []
        for _ in range(160):
            fs = rand_fs(ctx)
            mode = r.choice(('real', 'real', 'real', 'dry', 'inline', 'list')) if P in ('C03',) else r.choice(('real', 'real', 'real', 'dry')) if P != 'C25' else r.choice(('real', 'real', 'dry', 'inline', 'list'))
            opts = []
            rec, sp, vb = r.random() < .6, r.random() < .35, r.choice((0, 0, 1, 2))
            if rec:
                opts.append(r.choice((b'-r', b'--recursive')))
            if sp:
                opts.append(b'--special')
            opts += [b'-v'] * vb
            dry = mode == 'dry' or (mode in ('inline', 'list') and r.random() < .2)
            if dry:
                opts.append(r.choice((b'-n', b'--dry-run')))
            argv0 = b'detox'
            if mode == 'inline':
                if r.random() < .5:
                    argv0 = b'/usr/bin/inline-detox'
                else:
                    opts.append(b'--inline')
            if mode == 'list':
                opts.append(b'-L')
            seq = r.choice(('default', 'default', 'uncgi', 'uncgi-only', 'lower', 'lower-only', 'utf_8', 'utf_8-only', 'iso8859_1', 'conf', 'conf2'))
            ignore = [b'{arch}']
            cfg = []
            if seq in CONF:
                opts += [b'-f', b'/cfg/rc']
                cfg = ['fs:d,90,1,1,%s,=' % h(b'/cfg'), 'fs:f,91,1,1,%s,%s' % (h(b'/cfg/rc'), h(CONF[seq][0]))] + ['fs:f,%d,1,1,%s,%s' % (92 + i, h(k), h(v)) for i, (k, v) in enumerate(TBLS.items())]
                ignore = re.findall(rb'(?<=; )filename "([^"]*)"|\{ filename "([^"]*)"', CONF[seq][0][CONF[seq][0].find(b'ignore'):])
                ignore = [a or b for a, b in ignore]
            elif seq != 'default' or r.random() < .3:
                opts += [b'-s', seq.encode()]
            r.shuffle(opts) if b'-s' not in opts and b'-f' not in opts else None
            cand = [n[0] for n in fs.n]
            args = [r.choice((b'd', b'd/', b'./d', b'.', b'missing x', b'd//', r.choice(cand), r.choice(cand), r.choice(cand) + b'/', b'd/./' + b'a b', b'/r x', b'')) for _ in range(r.choice((1, 1, 1, 2, 3)))]
            if mode == 'inline' and r.random() < .3:
                args = []
            if any(a.startswith(b'-') for a in args):
                args = [b'--'] + args
            extra = []
            fail, nodir = -1, None
            if r.random() < .15:
                fail = r.randint(1, 3)
                extra.append('failrename:%d' % fail)
            if r.random() < .1:
                nodir = r.choice([n[0] for n in fs.n if n[1] == 'd'])
                extra.append('nodir:13,' + h(nodir))
            line = 'main %s :: %s' % (' '.join(h(x) for x in [argv0] + opts + args), ' '.join(fs.words() + cfg + extra + ['stdin:' + h(b'A b\n')]))
            jobs.append(dict(fs=fs, mode=mode, rec=rec, sp=sp, vb=vb, dry=dry, seq=seq, ignore=ignore, args=[a for a in args if a != b'--'], line=line, fail=fail, nodir=nodir))
        # what the real code makes of each component (twice: renamed names can be visited again)
        comps = {}
        for _ in range(6):
            need = {}
            for j in jobs:
                if j['seq'] in CONF:
                    spec = ' '.join('%s/0/%d/%s' % f for f in CONF[j['seq']][1])
                else:
                    spec = ' '.join('%s/%d/%d/%s' % (x, ln, tr, ('@' + {'iso8859_1': 'iso'}.get(b, b)) if b else '-') for x, b, ln, tr in dict(O.BUILTIN_CONFIG)[j['seq']])
                j['spec'] = spec
                cs = set(c for n in j['fs'].n for c in n[0].split(b'/')) | set(a.rpartition(b'/')[2] for a in j['args']) | {b''}
                for _ in range(4):
                    cs |= set(comps.get((spec, c)) or b'' for c in cs)
                for c in cs:
                    if (spec, c) not in comps:
                        need[(spec, c)] = 'run %s %s' % (h(c), spec)
            ks = list(need)
            if not ks:
                break
            for k, a in zip(ks, ctx.drv.pbatch([need[k] for k in ks])):
                comps[k] = unh(a.split(' ')[0]) if isinstance(a, str) and '=' in a else None
        got = ctx.ask([j['line'] for j in jobs])
        for j, a in zip(jobs, got):
            if a is None:
                continue
            judge_files(ctx, P, j, a, lambda c: comps.get((j['spec'], c)))
        if not ctx.more():
            return


def judge_files(ctx, P, j, a, clean):
    l = j['line']
    if isinstance(a, Crash):
        ctx.bad(l, 'no memory error', a, 'run of the program')
    f = fields(a)
    if f['sig'] or f['code'] == 99:
        ctx.bad(l, 'no memory error', 'signal %d %s' % (f['sig'], f['err'][-500:]), 'run of the program')
    fs = j['fs']
    ren = [e for e in f['events'] if e[0].startswith('rename')]
    odd = [e for e in f['events'] if e[0] in ('unlink', 'link', 'mkdir') or (e[0] == 'create' and unh(e[1]) != b'/dev/null')]
    quiet = j['dry'] or j['mode'] in ('inline', 'list')
    if P == 'C03':
        if quiet and (ren or odd):
            ctx.bad(l, 'nothing changed', ren + odd, 'a mode that only reports changes the file system')
    if P == 'C02':
        for e in ren:
            if e[0] == 'rename!' or (e[0] == 'rename2' and any(n[4] > 1 and n[0] == FS.canon(unh(e[1])) for n in fs.n)):
                ctx.bad(l, 'no existing file replaced', (unh(e[1]), unh(e[2])), 'a rename replaces a different file')
        if odd:
            ctx.bad(l, 'only renames', odd, 'something else than a rename')
    if P == 'C04':
        for e in ren:
            p, q = unh(e[1]), unh(e[2])
            d1, s1, c1 = p.rpartition(b'/')
            d2, s2, c2 = q.rpartition(b'/')
            if (d1, s1) != (d2, s2):
                ctx.bad(l, 'same directory', (p, q), 'a rename leaves the directory')
            if c1 in (b'.', b'..'):
                ctx.bad(l, 'never renamed', (p, q), 'a protected entry is renamed')
            w = clean(c1)
            if w is not None and c2 != w or p == q:
                ctx.bad(l, (p, w), (p, q), 'the new name is not the cleaned old name')
    S = Sim(fs, clean, j['dry'], j['rec'], j['sp'], j['vb'], j['ignore'], j['fail'], j['nodir'])
    if j['mode'] in ('real', 'dry'):
        for x in j['args']:
            S.arg(x)
        want = sorted(S.renames)
        have = sorted((unh(e[1]), unh(e[2]), e[3] == '0') for e in ren)
        out = [x for x in re.split(rb'\n(?=Scanning: |[^\n]* -> )', f['out'])] if f['out'] else []
        wout = b''.join(x + b'\n' for x in S.out)
        if P in ('C05', 'C25', 'C02', 'C04') and want != have:
            ctx.bad(l, want, have, 'renames of the run')
        if P in ('C03',) and j['dry'] and sorted(f['out'].split(b'\n')) != sorted(wout.split(b'\n')):
            ctx.bad(l, wout, f['out'], 'pairs printed by the dry run')
        if P in ('C05', 'C25'):
            op = sorted(unh(e[1]) for e in f['events'] if e[0] == 'opendir' and e[3] != '-1')
            if op != sorted(S.opened):
                ctx.bad(l, sorted(S.opened), op, 'directories entered')
            if j['vb'] and sorted(f['out'].split(b'\n')) != sorted(wout.split(b'\n')):
                ctx.bad(l, wout, f['out'], 'reported work')
        if P in ('C25', 'C02') and S.errs and not f['err']:
            ctx.bad(l, 'a message', f['err'], 'a problem is not reported')
        if f['code'] != 0 and j['nodir'] is None:
            ctx.bad(l, 'exit 0', f['code'], 'exit status')
    elif P == 'C25':
        fo = [unh(e[1]) for e in f['events'] if e[0] == 'fopen' and not unh(e[1]).startswith((b'/cfg', b'/usr', b'/etc'))]
        want = []
        if j['mode'] == 'inline':
            for x in j['args']:
                n = fs.lstat(x)
                if n is not None and n[1] != 'd':
                    want.append(x)
        if [e for e in f['events'] if e[0] in ('opendir',)] or ren:
            ctx.bad(l, 'nothing processed', f['events'][-3:], 'listing or inline mode touches files')
        if fo != want:
            ctx.bad(l, want, fo, 'files read by inline mode')
        if j['mode'] == 'inline' and not j['args'] and not f['out']:
            ctx.bad(l, 'the filtered standard input', f['out'], 'inline mode without arguments')


SEARCH = {'C01': s_memory, 'C02': s_files, 'C03': s_files, 'C04': s_files, 'C05': s_files, 'C06': s_safe, 'C07': s_default, 'C08': s_wipeup, 'C09': s_uncgi, 'C10': s_lower, 'C11': s_max_length,
          'C12': s_utf8, 'C13': s_iso, 'C14': s_table, 'C15': s_run, 'C16': s_tables_load, 'C17': s_parse_table, 'C18': s_choose, 'C19': s_inline, 'C20': s_list, 'C21': s_oom, 'C22': s_options,
          'C23': s_spoof, 'C24': s_load, 'C25': s_files}


def search(prop, seed=1, seconds=10, drv=None, hints=()):
    """-> (found dict or None, number of inputs)"""
    own = drv is None
    ctx = Ctx(prop, seed, seconds, drv, hints)
    try:
        for line, want in ctx.hints:
            compare(ctx, [(line, want)], 'counterexample of the verifier')
        SEARCH[prop](ctx)
        return None, ctx.count
    except Found as e:
        return e.k, ctx.count
    finally:
        if own:
            ctx.drv.close()


if __name__ == '__main__':
    for p in sys.argv[2:] or sorted(SEARCH):
        t = time.time()
        k, n = search(p, int(os.environ.get('VERIF_SEED', '1')), float(sys.argv[1]))
        print(p, 'inputs', n, '%.1fs' % (time.time() - t), 'ok' if not k else '')
        if k:
            for x in ('note', 'line', 'expected', 'actual'):
                print('   ', x, str(k[x])[:700])
