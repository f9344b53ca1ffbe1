"""Contracts: the machinery shared by repo functions and libc, and the libc contracts."""
import re
import z3
from term import *
from engine import *
import ir

SIDE = ('DATA',)


class ValFn:
    """region value function that knows which UFs it can produce"""
    def __init__(self, fn, nodes):
        self.fn, self.nodes = fn, nodes

    def __call__(self, o, i):
        return self.fn(o, i)

    def bases(self):
        out = set()
        for n in self.nodes:
            out |= bases(n)
        return out


def write_region(eng, st, cls, o, lo, hi, fn, nodes, ins=None, check=True):
    """cells [lo,hi) of object o get fn(i)"""
    if check and eng.frame is not None:
        eng.oblige(st, Or(le(hi, lo), eng.frame(st, Ptr(o, lo), sub(hi, lo))), 'write allowed by the contract frame', ins)
    st.mem[cls] = Region(st.mem[cls], lambda a, i, s, o=o, lo=lo, hi=hi: And(eng.same_obj(s, a, o), le(lo, i), lt(i, hi)),
                         ValFn(lambda a, i: fn(i), nodes), tag=('range', cls, o, lo, hi))


def in_object(st, p, n):
    return And(ne(p.o, 0), ne(st.kind(p.o), 0), le(0, p.f), le(add(p.f, n), st.size(p.o)))


def need_str(eng, st, p, ins, what):
    sf = eng.find_str(st, p)
    if sf is None:
        eng.oblige(st, z3.BoolVal(False), '%s is a NUL-terminated string' % what, ins, assume=False)
        n = fresh('len')
        sf = eng.assume_str(st, p, n)
    else:
        eng.oblige(st, True, '%s is a NUL-terminated string' % what, ins)
    return sf


class LibC:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def apply(self, eng, st, args, ins, t):
        eng.used_libc.add(self.name)
        r = self.fn(eng, st, args, ins)
        if isinstance(r, list):
            return r
        return [(st, r)]


LIBC = {}


def libc(*names):
    def deco(f):
        for n in names:
            LIBC[n] = LibC(n, f)
        return f
    return deco


def fork(st, *guards):
    out = []
    for g in guards:
        s = st.copy()
        s.assume(g)
        if s.feasible():
            out.append(s)
        else:
            out.append(None)
    return out


# ---------------------------------------------------------------- memory
@libc('malloc')
def c_malloc(eng, st, a, ins):
    n = eng.uns(st, a[0], 64)
    s1 = st.copy()
    s1.assume(lt(n, 2 ** 46))
    p = s1.alloc(n)
    s1.assume(eq(role(p.o), 0))
    s1.events = s1.events + (('malloc', n, p),)
    s2 = st.copy()
    s2.events = s2.events + (('malloc', n, NULL),)
    return [(s1, p), (s2, NULL)]


@libc('calloc')
def c_calloc(eng, st, a, ins):
    n = mul(eng.uns(st, a[0], 64), eng.uns(st, a[1], 64))
    s1 = st.copy()
    s1.assume(lt(n, 2 ** 46))
    p = s1.alloc(n)
    for c in DATA:
        write_region(eng, s1, c, p.o, 0, n, lambda i: 0, [], check=False)
    return [(s1, p), (st.copy(), NULL)]


@libc('free')
def c_free(eng, st, a, ins):
    p = a[0]
    eng.oblige(st, Or(eq(p.o, 0), And(eq(p.f, 0), eq(st.kind(p.o), 1), le(1, p.o))), 'free of a live heap block', ins)
    if eng.frame is not None:
        eng.oblige(st, Or(eq(p.o, 0), eng.frame(st, Ptr(p.o, 0), 'free')), 'free allowed by the contract frame', ins)
    out = []
    if isinstance(p.o, int):
        return None
    s1, s2 = fork(st, eq(p.o, 0), ne(p.o, 0))
    if s1 is not None:
        out.append((s1, None))
    if s2 is not None:
        s2.wr('kind', p.o, 0, 0)
        out.append((s2, None))
    return out


@libc('strlen')
def c_strlen(eng, st, a, ins):
    return need_str(eng, st, a[0], ins, 'strlen argument').n


def copy_str(eng, st, src, sf, dst, n, ins, check=True):
    """dst[0..n) = src[0..n) in i8"""
    old = st.mem['i8']
    d = sub(src.f, dst.f)
    write_region(eng, st, 'i8', dst.o, dst.f, add(dst.f, n), lambda i: read(old, src.o, add(i, d), eng, None), [old], ins, check)


@libc('strdup', '__strdup')
def c_strdup(eng, st, a, ins):
    sf = need_str(eng, st, a[0], ins, 'strdup argument')
    s1 = st.copy()
    p = dup(eng, s1, a[0], sf, ins)
    s1.events = s1.events + (('strdup', p),)
    s2 = st.copy()
    s2.events = s2.events + (('strdup', NULL),)
    return [(s1, p), (s2, NULL)]


def dup(eng, st, src, sf, ins):
    p = st.alloc(add(sf.n, 1))
    copy_str(eng, st, src, sf, p, add(sf.n, 1), ins, check=False)
    nf = StrFact(st.mem['i8'], p.o, 0, sf.n, sf.val)
    st.strs = st.strs + (nf,)
    return p


@libc('strndup')
def c_strndup(eng, st, a, ins):
    sf = need_str(eng, st, a[0], ins, 'strndup argument')
    n = eng.uns(st, a[1], 64)
    m = ite(le(sf.n, n), sf.n, n)
    s1 = st.copy()
    p = s1.alloc(add(m, 1))
    copy_str(eng, s1, a[0], sf, p, m, ins, check=False)
    s1.wr('i8', p.o, m, 0)
    s1.strs = s1.strs + (StrFact(s1.mem['i8'], p.o, 0, m, fresh('sv')),)
    return [(s1, p), (st.copy(), NULL)]


@libc('memcpy', 'memmove', 'llvm.memcpy', 'llvm.memmove')
def c_memcpy(eng, st, a, ins):
    dst, src, n = a[0], a[1], eng.uns(st, a[2], 64)
    eng.oblige(st, Or(eq(n, 0), And(in_object(st, dst, n), in_object(st, src, n))), 'copy stays inside both objects', ins)
    src_sf = eng.find_str(st, src) if True else None
    olds = {c: st.mem[c] for c in DATA}
    if eng.frame is not None:
        eng.oblige(st, Or(eq(n, 0), eng.frame(st, dst, n)), 'write allowed by the contract frame', ins)
    d = sub(src.f, dst.f)
    for c in DATA:
        old = olds[c]
        write_region(eng, st, c, dst.o, dst.f, add(dst.f, n), lambda i, old=old: read(old, src.o, add(i, d), eng, None), [old], ins, False)
    log_range(st, dst, n)
    if src_sf is not None and eng.holds(st, eq(n, add(src_sf.n, 1))):
        st.strs = st.strs + (StrFact(st.mem['i8'], dst.o, dst.f, src_sf.n, src_sf.val),)
    return dst


def log_range(st, p, n, classes=('i8', 'i16', 'i32', 'i64', 'p')):
    for c in classes:
        st.log(('range', c, p.o, p.f, add(p.f, n)))


@libc('memset', 'llvm.memset')
def c_memset(eng, st, a, ins):
    dst, v, n = a[0], a[1], eng.uns(st, a[2], 64)
    eng.oblige(st, Or(eq(n, 0), in_object(st, dst, n)), 'fill stays inside the object', ins)
    if eng.frame is not None:
        eng.oblige(st, Or(eq(n, 0), eng.frame(st, dst, n)), 'write allowed by the contract frame', ins)
    b = v % 256 if isinstance(v, int) else imod(v, 256)
    zero = isinstance(b, int) and b == 0
    for c in DATA:
        if c == 'i8':
            write_region(eng, st, c, dst.o, dst.f, add(dst.f, n), lambda i: b, [], ins, False)
        elif zero:
            write_region(eng, st, c, dst.o, dst.f, add(dst.f, n), lambda i: 0, [], ins, False)
        else:
            bb = Base(c, st.next)
            write_region(eng, st, c, dst.o, dst.f, add(dst.f, n), lambda i, bb=bb: atom(bb.f(z(dst.o), z(i))), [bb], ins, False)
    log_range(st, dst, n)
    return dst


@libc('memchr')
def c_memchr(eng, st, a, ins):
    p, n = a[0], eng.uns(st, a[2], 64)
    eng.oblige(st, Or(eq(n, 0), in_object(st, p, n)), 'search stays inside the object', ins)
    c = imod(a[1], 256) if not isinstance(a[1], int) else a[1] % 256
    m = st.mem['i8']
    return find_first(eng, st, m, p, n, c)


def find_first(eng, st, m, p, n, c):
    """first k<n with p[k]==c -> [(state, ptr-or-NULL)]"""
    r = fresh('found')
    s1 = st.copy()
    s1.assume(And(le(0, r), lt(r, n)), eq(read(m, p.o, add(p.f, r), eng, s1), c))
    rule_all(eng, s1, m, p, 0, r, lambda v: ne(v, c), n)
    s2 = st.copy()
    rule_all(eng, s2, m, p, 0, n, lambda v: ne(v, c), n)
    out = []
    if s1.feasible():
        out.append((s1, Ptr(p.o, add(p.f, r))))
    if s2.feasible():
        out.append((s2, NULL))
    return out


def rule_all(eng, st, m, p, lo, hi, pred, n=None):
    """forall k in [lo,hi): pred(m[p+k]); ground when the range is a small constant"""
    if isinstance(n, int) and n <= 16:
        st.assume(*[Imp(And(le(lo, k), lt(k, hi)), pred(read(m, p.o, add(p.f, k), eng, None))) for k in range(n + 1)])
        return
    All('scan', 'i8', p.o, p.f, 1, lo, hi, lambda k: pred(read(m, p.o, add(p.f, k), eng, None)), mems=[m], through=True).assume(eng, st)


def char_arg(x):
    return x % 256 if isinstance(x, int) else imod(x, 256)


@libc('strchr', 'index', 'strchrnul')
def c_strchr(eng, st, a, ins):
    sf = need_str(eng, st, a[0], ins, 'strchr argument')
    c = char_arg(a[1])
    nm = ins.a[1][1]
    if isinstance(c, int) and c == 0:
        return Ptr(a[0].o, add(a[0].f, sf.n))
    m = st.mem['i8']
    # the terminator matches c==0
    s0, st = fork(st, eq(c, 0), ne(c, 0))
    out = []
    if s0 is not None:
        out.append((s0, Ptr(a[0].o, add(a[0].f, sf.n))))
    if st is not None:
        r = find_first(eng, st, m, a[0], sf.n, c)
        if nm == 'strchrnul':
            r = [(s, p if p is not NULL else Ptr(a[0].o, add(a[0].f, sf.n))) for s, p in r]
        out += r
    return out


@libc('strrchr', 'rindex')
def c_strrchr(eng, st, a, ins):
    sf = need_str(eng, st, a[0], ins, 'strrchr argument')
    c = char_arg(a[1])
    p = a[0]
    if isinstance(c, int) and c == 0:
        return Ptr(p.o, add(p.f, sf.n))
    m = st.mem['i8']
    r = fresh('rfound')
    s1 = st.copy()
    s1.assume(And(le(0, r), lt(r, sf.n)), eq(read(m, p.o, add(p.f, r), eng, s1), c))
    rule_all(eng, s1, m, p, add(r, 1), sf.n, lambda v: ne(v, c), sf.n)
    s2 = st.copy()
    rule_all(eng, s2, m, p, 0, sf.n, lambda v: ne(v, c), sf.n)
    out = []
    if s1.feasible():
        out.append((s1, Ptr(p.o, add(p.f, r))))
    if s2.feasible():
        out.append((s2, NULL))
    return out


def str_eq_formula(eng, st, pa, sa, pb, sb):
    """content equality as far as it is expressible: by value id, plus ground when one side is a small constant"""
    return eq(sa.val, sb.val)


@libc('strcmp')
def c_strcmp(eng, st, a, ins):
    sa = need_str(eng, st, a[0], ins, 'strcmp argument 1')
    sb = need_str(eng, st, a[1], ins, 'strcmp argument 2')
    ca, cb = st.const_str(a[0]), st.const_str(a[1])
    if ca is not None and cb is not None:
        return (ca > cb) - (ca < cb)
    m = st.mem['i8']
    s1, s2 = st.copy(), st.copy()
    s1.assume(eq(sa.val, sb.val), eq(sa.n, sb.n))
    n = sa.n if isinstance(sa.n, int) else sb.n
    same = lambda k: eq(read(m, a[0].o, add(a[0].f, k), eng, None), read(m, a[1].o, add(a[1].f, k), eng, None))
    if isinstance(n, int) and n <= 32:
        s1.assume(*[same(k) for k in range(n + 1)])
        s2.assume(Or(ne(sa.n, sb.n), *[Not(same(k)) for k in range(n)]))
    else:
        All('same1', 'i8', a[0].o, a[0].f, 1, 0, add(sa.n, 1), same, mems=[m]).assume(eng, s1)
        All('same2', 'i8', a[1].o, a[1].f, 1, 0, add(sa.n, 1), same, mems=[m]).assume(eng, s1)
        d = fresh('differs')
        s2.assume(And(le(0, d), le(d, sa.n), le(d, sb.n)), Not(same(d)))
    s2.assume(ne(sa.val, sb.val))
    r = fresh('strcmp')
    s2.assume(ne(r, 0), And(le(-255, r), le(r, 255)))
    out = []
    if s1.feasible():
        out.append((s1, 0))
    if s2.feasible():
        out.append((s2, r))
    return out


@libc('strncmp', 'strncasecmp', 'strcasecmp', 'memcmp')
def c_strncmp(eng, st, a, ins):
    nm = ins.a[1][1]
    if nm == 'memcmp':
        n = eng.uns(st, a[2], 64)
        eng.oblige(st, Or(eq(n, 0), And(in_object(st, a[0], n), in_object(st, a[1], n))), 'compare stays inside both objects', ins)
        return eng.fresh_val(st, ('int', 32), nm)
    sa = need_str(eng, st, a[0], ins, nm + ' argument 1')
    sb = need_str(eng, st, a[1], ins, nm + ' argument 2')
    n = eng.uns(st, a[2], 64) if len(a) > 2 else None
    f = z3.Function('lib_' + nm, IntS, IntS, IntS, IntS)
    r = atom(f(z(sa.val), z(sb.val), z(n if n is not None else -1)))
    st.assume(And(le(-255, r), le(r, 255)))
    # texts that agree have the same length, or both reach the limit
    st.assume(Imp(eq(r, 0), Or(eq(sa.n, sb.n), And(le(n, sa.n), le(n, sb.n)) if n is not None else False)))
    return r


# ---------------------------------------------------------------- formatted output
FMT = re.compile(rb'%(-|0|\+| |#)*(\*|\d+)?(\.(\*|\d+)?)?(hh|h|ll|l|z|j|t)?([a-zA-Z%])')


def parse_fmt(f):
    segs = []
    i = 0
    for m in FMT.finditer(f):
        if m.start() > i:
            segs.append(('lit', f[i:m.start()]))
        segs.append(('conv', m.group(6).decode(), m.group(2), m.group(3), m.group(4), m.group(5), bool(m.group(1))))
        i = m.end()
    if i < len(f):
        segs.append(('lit', f[i:]))
    return segs


def format_args(eng, st, fmtp, args, ins, out_string=True):
    """-> list of (length, charfn(k) or None) segments, or None when the format is not a constant"""
    f = st.const_str(fmtp)
    if f is None:
        eng.oblige(st, z3.BoolVal(False), 'format string is a constant', ins, assume=False)
        return None
    segs = []
    ai = 0
    m = st.mem['i8']

    def take():
        nonlocal ai
        if ai >= len(args):
            eng.oblige(st, z3.BoolVal(False), 'enough arguments for the format', ins, assume=False)
            return None
        ai += 1
        return args[ai - 1]
    for s in parse_fmt(f):
        if s[0] == 'lit':
            b = s[1]
            segs.append((len(b), lambda k, b=b: lit_at(b, k), [], ('lit', b)))
            continue
        _, cv, width, prec, precv, mod, flags = s
        if cv == '%':
            segs.append((1, lambda k: 37, [], ('lit', b'%')))
            continue
        if width == b'*':
            take()
        pv = None
        if prec is not None:
            pv = take() if precv == b'*' else int(precv or 0)
        v = take()
        if v is None:
            return None
        if cv == 's':
            if not isinstance(v, Ptr):
                eng.oblige(st, z3.BoolVal(False), 'argument of %s is a string', ins, assume=False)
                return None
            if getattr(eng.spec, 'null_text', False) and not eng.holds(st, ne(v.o, 0)):
                s2 = st.copy()
                s2.assume(ne(v.o, 0))
                if s2.feasible():
                    need_str(eng, s2, v, ins, 'argument of %s')
                eng.assumptions['printf prints something for a NULL string (glibc: "(null)")'] = 1
                w = fresh('fmtlen')
                st.assume(le(0, w), lt(w, STRMAX))
                g = z3.Function(fresh_name('fmtc'), IntS, IntS)
                segs.append((w, lambda k, g=g: atom(g(z(k))), [], ('other',)))
                continue
            sf = need_str(eng, st, v, ins, 'argument of %s')
            n = sf.n
            if pv is not None:
                n = ite(And(le(0, pv), lt(pv, sf.n)), pv, sf.n)
            if width is not None:
                w = fresh('fmtlen')
                st.assume(le(n, w))
                g = z3.Function(fresh_name('fmtc'), IntS, IntS)
                segs.append((w, lambda k, g=g: atom(g(z(k))), [], ('other',)))
            else:
                segs.append((n, lambda k, v=v, m=m: read(m, v.o, add(v.f, k), eng, None), [m], ('str', v, sf, pv)))
        else:
            if isinstance(v, Ptr) and cv != 'p':
                eng.oblige(st, z3.BoolVal(False), 'argument of %%%s is a number' % cv, ins, assume=False)
            if cv == 'c':
                segs.append((1, lambda k, v=v: char_arg(v), [], ('chr', v)))
                continue
            w = fresh('fmtlen')
            st.assume(And(le(1, w), le(w, 400)))
            g = z3.Function(fresh_name('fmtc'), IntS, IntS)
            segs.append((w, lambda k, g=g: ite(And(le(1, atom(g(z(k)))), le(atom(g(z(k))), 127)), atom(g(z(k))), 48), [], ('num', v)))
    return segs


def lit_at(b, k):
    if isinstance(k, int):
        return b[k] if 0 <= k < len(b) else 0
    r = 0
    for j in range(len(b)):
        r = ite(eq(k, j), b[j], r)
    return r


def emit(eng, st, stream, segs, ins):
    """something is written to a stream"""
    st.events = st.events + (('out', stream, segs),)
    h = getattr(eng.spec, 'on_out', None)
    if h:
        h(eng, st, stream, segs, ins)


@libc('printf', 'puts', 'putchar', 'perror', 'fputs', 'fputc', 'putc', 'fwrite', 'fflush')
def c_printf(eng, st, a, ins):
    nm = ins.a[1][1]
    if nm == 'printf':
        emit(eng, st, 'stdout', format_args(eng, st, a[0], a[1:], ins), ins)
    elif nm in ('puts', 'perror', 'fputs'):
        sf = need_str(eng, st, a[0], ins, nm + ' argument')
        stream = 'stdout' if nm == 'puts' else ('stderr' if nm == 'perror' else a[1])
        segs = [(sf.n, None, [], ('str', a[0], sf, None))]
        if nm == 'puts':
            segs.append((1, None, [], ('lit', b'\n')))
        emit(eng, st, stream, segs, ins)
    elif nm in ('fputc', 'putc', 'putchar'):
        c = a[0]
        emit(eng, st, 'stdout' if nm == 'putchar' else a[1],
             [(1, None, [], ('lit', bytes([c % 256])) if isinstance(c, int) else ('chr', c))], ins)
    elif nm == 'fwrite':
        n = mul(eng.uns(st, a[1], 64), eng.uns(st, a[2], 64))
        eng.oblige(st, Or(eq(n, 0), in_object(st, a[0], n)), 'fwrite stays inside the object', ins)
        emit(eng, st, a[3], [(n, None, [], ('bytes', a[0], n))], ins)
        return eng.fresh_val(st, ('int', 64), nm)
    return eng.fresh_val(st, ('int', 32), nm)


@libc('fprintf')
def c_fprintf(eng, st, a, ins):
    emit(eng, st, a[0], format_args(eng, st, a[1], a[2:], ins), ins)
    return eng.fresh_val(st, ('int', 32), 'fprintf')


def seg_char(segs, k):
    """character k of the concatenation"""
    r = 0
    pos = 0
    out = []
    for n, fn, nodes, d in segs:
        out.append((pos, n, fn))
        pos = add(pos, n)
    for p, n, fn in reversed(out):
        r = ite(And(le(p, k), lt(k, add(p, n))), fn(sub(k, p)), r)
    return r


def total(segs):
    t = 0
    for s in segs:
        t = add(t, s[0])
    return t


def put_formatted(eng, st, dst, segs, limit, ins):
    """write the formatted text (at most limit bytes including NUL; None: unlimited)"""
    tot = total(segs)
    if limit is None:
        w = tot
    else:
        w = tot if eng.holds(st, lt(tot, limit)) else ite(lt(tot, limit), tot, sub(limit, 1))
    eng.oblige(st, in_object(st, dst, add(w, 1)), 'formatted output stays inside the object', ins)
    if eng.frame is not None:
        eng.oblige(st, eng.frame(st, dst, add(w, 1)), 'write allowed by the contract frame', ins)
    for n, fn, nodes, d in segs:
        if d[0] == 'str':
            eng.oblige(st, Or(ne(d[1].o, dst.o), le(add(add(d[1].f, n), 1), dst.f), le(add(dst.f, add(w, 1)), d[1].f)),
                       'formatted source does not overlap the destination', ins)
    nodes = [x for s in segs for x in s[2]]
    write_region(eng, st, 'i8', dst.o, dst.f, add(dst.f, w), lambda i: seg_char(segs, sub(i, dst.f)), nodes, ins, False)
    st.wr('i8', dst.o, add(dst.f, w), 0, log=False)
    st.log(('range', 'i8', dst.o, dst.f, add(dst.f, add(w, 1))))
    val = fresh('sv')
    if len(segs) == 1 and segs[0][3][0] == 'str' and segs[0][3][3] is None and const_diff(w, tot) == 0:
        val = segs[0][3][2].val
    sf = StrFact(st.mem['i8'], dst.o, dst.f, w, val)
    st.strs = st.strs + (sf,)
    # (literal text and string arguments contain no NUL)
    eng.reassert(st, sf)
    last = segs[-1][3] if segs else None
    if last is not None and last[0] == 'str' and last[3] is None and const_diff(w, tot) == 0:
        off = sub(tot, segs[-1][0])
        st.strs = st.strs + (StrFact(st.mem['i8'], dst.o, add(dst.f, off), segs[-1][0], last[2].val),)
        if len(segs) > 1:
            st.assume(eq(ite(eq(off, 0), val, eng.suffix_val(val, off)), last[2].val))
    return tot, sf


@libc('snprintf', 'sprintf')
def c_snprintf(eng, st, a, ins):
    nm = ins.a[1][1]
    if nm == 'snprintf':
        lim = eng.uns(st, a[1], 64)
        segs = format_args(eng, st, a[2], a[3:], ins)
        out = []
        if segs is None:
            raise Unsupported('snprintf format')
        sz, st = fork(st, eq(lim, 0), ne(lim, 0))
        if sz is not None:
            out.append((sz, eng.fresh_val(sz, ('int', 32), nm)))
        if st is None:
            return out
        tot, sf = put_formatted(eng, st, a[0], segs, lim, ins)
    else:
        segs = format_args(eng, st, a[1], a[2:], ins)
        if segs is None:
            raise Unsupported('sprintf format')
        out = []
        tot, sf = put_formatted(eng, st, a[0], segs, None, ins)
    st.events = st.events + (('format', a[0], segs, sf),)
    r = eng.fresh_val(st, ('int', 32), nm)
    st.assume(Imp(lt(tot, 2 ** 31), eq(r, tot)))
    return out + [(st, r)]


@libc('strcpy', 'stpcpy')
def c_strcpy(eng, st, a, ins):
    sf = need_str(eng, st, a[1], ins, 'strcpy source')
    n = add(sf.n, 1)
    eng.oblige(st, in_object(st, a[0], n), 'copied string fits the destination', ins)
    copy_str(eng, st, a[1], sf, a[0], n, ins)
    st.log(('range', 'i8', a[0].o, a[0].f, add(a[0].f, n)))
    st.strs = st.strs + (StrFact(st.mem['i8'], a[0].o, a[0].f, sf.n, sf.val),)
    eng.reassert(st, st.strs[-1])
    return a[0] if ins.a[1][1] == 'strcpy' else Ptr(a[0].o, add(a[0].f, sf.n))


@libc('strcat')
def c_strcat(eng, st, a, ins):
    d = need_str(eng, st, a[0], ins, 'strcat destination')
    s = need_str(eng, st, a[1], ins, 'strcat source')
    n = add(s.n, 1)
    tgt = Ptr(a[0].o, add(a[0].f, d.n))
    eng.oblige(st, in_object(st, tgt, n), 'appended string fits the destination', ins)
    copy_str(eng, st, a[1], s, tgt, n, ins)
    st.log(('range', 'i8', tgt.o, tgt.f, add(tgt.f, n)))
    st.strs = st.strs + (StrFact(st.mem['i8'], a[0].o, a[0].f, add(d.n, s.n), fresh('sv')),
                         StrFact(st.mem['i8'], tgt.o, tgt.f, s.n, s.val))
    eng.reassert(st, st.strs[-2])
    return a[0]


@libc('strncpy')
def c_strncpy(eng, st, a, ins):
    sf = need_str(eng, st, a[1], ins, 'strncpy source')
    n = eng.uns(st, a[2], 64)
    eng.oblige(st, Or(eq(n, 0), in_object(st, a[0], n)), 'copied bytes fit the destination', ins)
    old = st.mem['i8']
    d = sub(a[1].f, a[0].f)
    src = a[1]
    write_region(eng, st, 'i8', a[0].o, a[0].f, add(a[0].f, n),
                 lambda i: ite(lt(sub(i, a[0].f), sf.n), read(old, src.o, add(i, d), eng, None), 0), [old], ins)
    st.log(('range', 'i8', a[0].o, a[0].f, add(a[0].f, n)))
    return a[0]


# ---------------------------------------------------------------- ctype / numbers
def ctype_pre(eng, st, c, ins):
    eng.oblige(st, And(le(-128, c), le(c, 255)), 'character argument in range', ins)


def rng(c, *rs):
    return Or(*[And(le(lo, c), le(c, hi)) for lo, hi in rs])


CT = {'isxdigit': ((48, 57), (65, 70), (97, 102)), 'isupper': ((65, 90),), 'islower': ((97, 122),), 'isdigit': ((48, 57),),
      'isalpha': ((65, 90), (97, 122)), 'isalnum': ((48, 57), (65, 90), (97, 122)), 'isspace': ((9, 13), (32, 32)),
      'iscntrl': ((0, 31), (127, 127)), 'isprint': ((32, 126),), 'isascii': ((0, 127),)}


def c_ctype(eng, st, a, ins):
    nm = ins.a[1][1]
    c = a[0]
    ctype_pre(eng, st, c, ins)
    g = rng(c, *CT[nm])
    if isb(g):
        return 1 if g else 0
    r = eng.fresh_val(st, ('int', 32), nm)
    st.assume(Iff(ne(r, 0), g))
    return r


for _n in CT:
    LIBC[_n] = LibC(_n, c_ctype)


@libc('tolower', 'toupper')
def c_tolower(eng, st, a, ins):
    c = a[0]
    ctype_pre(eng, st, c, ins)
    if ins.a[1][1] == 'tolower':
        return ite(And(le(65, c), le(c, 90)), add(c, 32), c)
    return ite(And(le(97, c), le(c, 122)), sub(c, 32), c)


def hexval(c):
    return ite(le(c, 57), sub(c, 48), ite(le(c, 70), sub(c, 55), sub(c, 87)))


XD = CT['isxdigit']


@libc('strtol', 'strtoul', 'atoi')
def c_strtol(eng, st, a, ins):
    sf = need_str(eng, st, a[0], ins, 'number argument')
    w = 32 if ins.a[1][1] == 'atoi' else 64
    r = eng.fresh_val(st, ('int', w), 'strtol')
    if w == 64 and isinstance(a[2], int) and a[2] == 16:
        c = [st.rd('i8', a[0].o, add(a[0].f, k)) for k in (0, 1, 2)]
        st.assume(Imp(And(eq(sf.n, 2), rng(c[0], *XD), rng(c[1], *XD)), eq(r, add(scale(hexval(c[0]), 16), hexval(c[1])))))
        st.assume(Imp(And(eq(sf.n, 1), rng(c[0], *XD)), eq(r, hexval(c[0]))))
    if w == 64 and a[1] is not NULL and not (isinstance(a[1].o, int) and a[1].o == 0):
        raise Unsupported('strtol end pointer')
    if getattr(eng.spec, 'numbers', False) and (w == 32 or isinstance(a[2], int) and a[2] == 10):
        st.ghost['number'] = r
    return r


@libc('abs')
def c_abs(eng, st, a, ins):
    return ite(le(0, a[0]), a[0], scale(a[0], -1))


# ---------------------------------------------------------------- process
@libc('exit', '_exit', 'abort', '__assert_fail')
def c_exit(eng, st, a, ins):
    code = a[0] if ins.a[1][1] in ('exit', '_exit') else 134
    if eng.spec is not None:
        eng.spec.on_exit(eng, st, code, ins)
    return []


@libc('__errno_location')
def c_errno(eng, st, a, ins):
    o = eng.glob('errno$')
    k = ('errno',)
    if k not in st.memo:
        st.memo[k] = True
        st.assume(eq(st.kind(o), 3), eq(st.size(o), 4))
    b = Base('i32', st.next)      # any value at any time
    st.mem['i32'] = Region(st.mem['i32'], lambda x, i, s: eng.same_obj(s, x, o), ValFn(lambda x, i: atom(b.f(z(x), z(i))), [b]), tag=('obj', 'i32', o))
    return Ptr(o, 0)


@libc('strerror')
def c_strerror(eng, st, a, ins):
    return new_ext_str(eng, st, 'strerror')


def new_ext_str(eng, st, what, kind=2):
    """a NUL-terminated string owned by the library"""
    n = fresh(what)
    p = Ptr(st.next, 0)
    st.next = add(st.next, 1)
    sz = fresh('sz')
    st.wr('size', p.o, 0, sz, log=False)
    st.wr('kind', p.o, 0, kind, log=False)
    st.assume(lt(n, sz), le(0, n))
    eng.assume_str(st, p, n)
    return p


@libc('getenv')
def c_getenv(eng, st, a, ins):
    need_str(eng, st, a[0], ins, 'getenv argument')
    nm = st.const_str(a[0])
    s1, s2 = st.copy(), st.copy()
    env = getattr(eng.spec, 'env', {})
    if nm in env:
        # the same answer every time
        isset, p, n, v = env[nm]
        s1.assume(isset)
        s2.assume(Not(isset))
        eng.assume_str(s1, p, n, v)
        return [(s, r) for s, r in ((s1, p), (s2, NULL)) if s.feasible()]
    p = new_ext_str(eng, s1, 'env')
    s1.events += (('getenv', nm, p),)
    s2.events += (('getenv', nm, NULL),)
    return [(s1, p), (s2, NULL)]


# ---------------------------------------------------------------- contracts of repo functions
class Case:
    """one way a function may return"""
    def __init__(self, name, guard, post, make=None):
        self.name, self.guard, self.post, self.make = name, guard, post, make


class FnSpec:
    name = None
    props = ()                 # properties whose checks verify this function
    terminates = True
    allocates = True
    trusted = False
    must_return = True

    def params(self, eng, st, fn):
        """fresh arguments"""
        return [eng.fresh_val(st, t, n) for t, n in fn.params if n is not None]

    def requires(self, eng, st, args):
        return []

    def modifies(self, eng, st, args):
        """descriptors of pre-existing memory the function may change"""
        return []

    def frees(self, eng, st, args):
        return []

    def cases(self, eng, pre, args):
        return []

    def candidates(self, v):
        return []

    def measures(self, eng):
        return []

    def must_terminate(self, fn, header):
        return self.terminates

    def on_exit(self, eng, st, code, ins):
        pass

    def fresh_ghost(self, eng, st, g):
        return None

    def effects(self, eng, pre, st, args):
        """apply-side ghost effects"""

    def at_return(self, eng, pre, st, args, ret, ins):
        """verify-side extra obligations"""

    # ------------------------------------------------ use at a call site
    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        for c in self.requires(eng, st, args):
            eng.oblige(st, c, '%s: requires %s' % (self.name, c.name), ins)
        pre = st.copy()
        mods = self.modifies(eng, st, args)
        for d in mods:
            if eng.frame is not None and d[0] in ('cell', 'obj', 'range'):
                lo = d[3] if d[0] != 'obj' else 0
                n = 1 if d[0] == 'cell' else (sub(d[4], d[3]) if d[0] == 'range' else 'obj')
                eng.oblige(st, Or(eq(d[2], 0), eng.frame(st, Ptr(d[2], lo), n)), 'write of %s allowed by the contract frame' % self.name, ins)
            elif eng.frame is not None and d[0] == 'pred':
                # every cell allowed by the callee is allowed here: same predicate
                ok = any(x[0] == 'pred' and x[2] is d[2] or x[0] == 'all' and x[1] == d[1] for x in getattr(eng.frame, 'mods', ()))
                eng.oblige(st, z3.BoolVal(ok), 'writes of %s (%s) allowed by the contract frame' % (self.name, d[3] if len(d) > 3 else ''), ins)
            st.havoc(d)
        for p in self.frees(eng, st, args):
            if eng.frame is not None:
                eng.oblige(st, eng.frame(st, p, 'free'), 'free by %s allowed by the contract frame' % self.name, ins)
            st.wr('kind', p.o, 0, 0)
        if self.allocates:
            st.assume(eng.new_next(st))
        self.effects(eng, pre, st, args)
        out = []
        for c in self.cases(eng, pre, args):
            s = st.copy()
            r = c.make(eng, pre, s, args) if c.make else (None if t[0] == 'void' else eng.fresh_val(s, t, self.name))
            s.assume(c.guard(s, r))
            if not s.feasible():
                continue
            for cl in c.post(s, r):
                cl.assume(eng, s)
            if s.feasible():
                out.append((s, r))
        return out

    # ------------------------------------------------ verification of the body
    def frame(self, eng, pre, args):
        mods = self.modifies(eng, pre, args)
        frees = self.frees(eng, pre, args)

        def fr(st, p, w):
            """may [p, p+w) be written / p be freed"""
            g = [le(pre.next, p.o)]
            if g[0] is True or eng.holds(st, g[0]):
                return True
            if isinstance(w, str) and w == 'free':
                for q in frees:
                    g.append(eq(q.o, p.o))
                return Or(*g)
            for d in mods:
                if d[0] == 'obj':
                    g.append(eq(d[2], p.o))
                elif d[0] == 'cell' and not (isinstance(w, str) and w == 'obj'):
                    sz = 8 if d[1] in ('p', 'i64') else {'i8': 1, 'i16': 2, 'i32': 4}[d[1]]
                    g.append(And(eq(d[2], p.o), le(d[3], p.f), le(add(p.f, w), add(d[3], sz))))
                elif d[0] == 'range' and not (isinstance(w, str) and w == 'obj'):
                    g.append(And(eq(d[2], p.o), le(d[3], p.f), le(add(p.f, w), d[4])))
                elif d[0] == 'all':
                    return True
                elif d[0] == 'pred':
                    g.append(d[2](p.o, p.f))
            return Or(*g)
        fr.mods = mods
        return fr

    def begin(self, eng, st, args, fn):
        """hook after preconditions were assumed"""

    def verify(self, eng):
        fn = ir.get_func(eng.M, self.name)
        if fn is None:
            raise Unsupported('function %s not found in the source' % self.name)
        eng.spec = self
        eng.fname = self.name
        eng.used_contracts, eng.used_libc = set(), set()
        rets = 0
        only = eng.opts.get('variants')
        for variant in self.variants:
            if only is None or variant in only:
                rets += self.verify_variant(eng, fn, variant)
        eng.rets = rets
        if only is None:
            self.finish(eng, rets)

    variants = (None,)

    def vary(self, eng, st, args, variant):
        """restrict the arguments of this variant; returns them"""
        return args

    def verify_variant(self, eng, fn, variant):
        st = eng.new_state()
        args = self.params(eng, st, fn)
        self.variant = variant
        args = self.vary(eng, st, args, variant)
        for (t, n), v in zip([p for p in fn.params if p[1] is not None], args):
            st.env[n] = v
        for c in self.requires(eng, st, args):
            c.assume(eng, st)
        self.begin(eng, st, args, fn)
        if not st.feasible():
            raise Unsupported('contradictory precondition of ' + self.name)
        pre = st.copy()
        eng.pre, eng.args = pre, args
        eng.frame = self.frame(eng, pre, args)
        eng.record = True
        eng.extractor = lambda model: self.extract(eng, pre, args, model)
        eng.loopcache.clear()
        rets = 0
        for o in eng.run_from(st, fn, fn.order[0], None, None):
            if o[0] != 'ret':
                continue
            s, r, ins = o[1], o[2], o[3]
            eng.stats['paths'] += 1
            if not s.feasible():
                continue
            rets += 1
            self.check_return(eng, pre, s, args, r, ins)
        return rets

    def finish(self, eng, rets):
        if rets == 0 and self.cases(eng, eng.pre, eng.args):
            eng.oblige(eng.pre.copy(), z3.BoolVal(False), 'some path returns', None, assume=False)

    def check_return(self, eng, pre, s, args, r, ins):
        cs = self.cases(eng, pre, args)
        if cs:
            eng.oblige(s, Or(*[c.guard(s, r) for c in cs]), 'returns in one of the specified ways', ins)
        for c in cs:
            t = s.copy()
            t.assume(c.guard(t, r))
            if not t.feasible():
                continue
            for cl in c.post(t, r):
                eng.oblige(t, cl, 'ensures %s: %s' % (c.name, cl.name), ins, props=cl.props)
        self.at_return(eng, pre, s, args, r, ins)

    def extract(self, eng, pre, args, model):
        return None


def model_str(eng, model, st, p, n, limit=4096):
    """bytes of a parameter string in a model"""
    ln = model.eval(z(n), model_completion=True).as_long()
    if ln > limit:
        return None
    b = st.mem['i8']
    out = bytearray()
    for k in range(ln):
        c = model.eval(z(read(b, p.o, add(p.f, k), eng, None)), model_completion=True).as_long()
        out.append(c % 256 or 97)
    return bytes(out)


class Fresh(Clause):
    """result is a newly allocated heap block (of the given size, when given)"""
    def __init__(self, name, p, pre, size=None, props=None):
        self.name, self.p, self.pre, self.size_, self.props = name, p, pre, size, props

    def formula(self, st):
        g = And(le(self.pre.next, self.p.o), lt(self.p.o, st.next), eq(self.p.f, 0), eq(st.kind(self.p.o), 1))
        if self.size_ is not None:
            g = And(g, eq(st.size(self.p.o), self.size_))
        return g

    def assume(self, eng, st):
        st.assume(self.formula(st))

    def prove(self, eng, st, what):
        return eng.prove(st, self.formula(st), what)


def fresh_ptr(eng, pre, s, args):
    """result pointer to a newly allocated block"""
    o = fresh('new')
    s.assume(And(le(pre.next, o), lt(o, s.next)))
    eng.bound_obj(o, s.next, pre.next)
    return Ptr(o, 0)
