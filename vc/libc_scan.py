"""libc contracts: reading formatted text.  What a conversion finds is a function of the text it is applied to."""
import re
import z3
from term import *
from engine import *
from contracts import *

SCAN = re.compile(rb'( *)%(\d*)(i|d|x|s|n|\[\^[^\]]\])')


def lib(name, *args):
    f = z3.Function('lib_' + name, *([IntS] * (len(args) + 1)))
    return atom(f(*[z(a) for a in args]))


def word(v):
    """the first word of a text: is there one, its length and its value"""
    return eq(lib('hasword', v), 1), lib('wordlen', v), lib('word', v)


def number(v, conv):
    """a number at the start of a text: result of the scan, value"""
    c = ord(conv)
    return lib('scannum', v, c), lib('number', v, c)


def upto(v, ch):
    """the text in front of the next ch: its length and value"""
    return lib('uptolen', v, ch), lib('upto', v, ch)


def after(v, conv):
    """how far a conversion and the blanks behind it reach"""
    return lib('after', v, ord(conv))


@libc('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')
def c_sscanf(eng, st, a, ins):
    sf = need_str(eng, st, a[0], ins, 'text to scan')
    f = st.const_str(a[1])
    ds, pos = [], 0
    for m in SCAN.finditer(f or b''):
        if m.start() != pos:
            break
        ds.append((m.group(3).decode('latin1'), int(m.group(2) or 0)))
        pos = m.end()
    if f is None or pos != len(f.rstrip(b' ')) or not ds or ds[0][0] == 'n' or [d[0] for d in ds[1:]] not in ([], ['n']):
        raise Unsupported('scan format %r' % f)
    cv, width = ds[0]
    v, n = sf.val, sf.n
    args = a[2:]
    dest = args[0]
    m = st.mem['i8']
    at0 = read(m, a[0].o, a[0].f, eng, st)
    if cv in 'idx':
        ret, x = number(v, cv)
        st.assume(And(le(-1, ret), le(ret, 1)), And(le(-2 ** 31, x), lt(x, 2 ** 31)))
        l = 0
    elif cv == 's':
        has, l, x = word(v)
        ret = ite(has, 1, -1)
        st.assume(Imp(has, And(le(1, l), le(l, n))), Imp(eq(n, 0), Not(has)))
    else:
        c = ord(cv[2])
        l, x = upto(v, c)
        k = fresh('k')
        st.assume(And(le(0, l), le(l, n)), Imp(lt(l, n), eq(read(m, a[0].o, add(a[0].f, l), eng, st), c)))
        All('before the delimiter', 'i8', a[0].o, a[0].f, 1, 0, l, lambda k: ne(read(m, a[0].o, add(a[0].f, k), eng, None), c), mems=[m]).assume(eng, st)
        ret = ite(lt(0, l), 1, ite(eq(n, 0), -1, 0))
    out = []
    yes, no = fork(st, eq(ret, 1), ne(ret, 1))
    if no is not None:
        r = eng.fresh_val(no, ('int', 32), 'scanned')
        no.assume(eq(r, ret))
        out.append((no, r))
    if yes is None:
        return out
    st = yes
    if cv in 'idx':
        eng.oblige(st, in_object(st, dest, 4), 'the number read fits its variable', ins)
        if eng.frame is not None:
            eng.oblige(st, eng.frame(st, dest, 4), 'write allowed by the contract frame', ins)
        st.wr('i32', dest.o, dest.f, x)
    else:
        if width:
            short = lt(width, l)
            l, x = ite(short, width, l), ite(short, lib('cut', x, width), x)
        st.assume(eq(lib('lengthof', x), l))
        eng.oblige(st, in_object(st, dest, add(l, 1)), 'the text read fits its buffer', ins)
        if eng.frame is not None:
            eng.oblige(st, eng.frame(st, dest, add(l, 1)), 'write allowed by the contract frame', ins)
        if cv == 's':
            g = z3.Function(fresh_name('wordc'), IntS, IntS)
            UFAll('word', g.name(), lambda i: And(le(0, atom(g(z(i)))), le(atom(g(z(i))), 255), Imp(And(le(dest.f, i), lt(i, add(dest.f, l))), lt(0, atom(g(z(i)))))), 1).assume(eng, st)
            ch, nodes = lambda i: atom(g(z(i))), []
        else:
            d = sub(a[0].f, dest.f)
            ch, nodes = lambda i: read(m, a[0].o, add(i, d), eng, None), [m]
        end = add(dest.f, l)
        write_region(eng, st, 'i8', dest.o, dest.f, add(end, 1), lambda i: ite(eq(i, end), 0, ch(i)), nodes, ins, False)
        eng.assume_str(st, dest, l, x)
    if len(ds) > 1:
        off = after(v, cv)
        st.assume(And(le(1, off), le(off, n)))
        if len(args) < 2:
            eng.oblige(st, z3.BoolVal(False), 'enough arguments for the format', ins, assume=False)
            return out
        eng.oblige(st, in_object(st, args[1], 4), 'the position fits its variable', ins)
        if eng.frame is not None:
            eng.oblige(st, eng.frame(st, args[1], 4), 'write allowed by the contract frame', ins)
        st.wr('i32', args[1].o, args[1].f, off)
    r = eng.fresh_val(st, ('int', 32), 'scanned')
    st.assume(eq(r, 1))
    out.append((st, r))
    return out


@libc('setlocale')
def c_setlocale(eng, st, a, ins):
    need_str(eng, st, a[1], ins, 'locale name')
    s1, s2 = st.copy(), st
    ans = getattr(eng.spec, 'locale', None)
    if ans:
        p = ans(eng, s1, ins)
    else:
        p = eng.fresh_val(s1, ('ptr',), 'locale')
        s1.assume(lt(0, p.o), eq(role(p.o), 51))
        eng.assume_str(s1, p, fresh('len'))
    s1.events += (('setlocale', p),)
    s2.events += (('setlocale', NULL),)
    return [(s1, p), (s2, NULL)]
