"""libc contracts: opening and closing streams."""
import z3
from term import *
from engine import *
from contracts import *
from libc_fs import STREAM, ext_obj
from specs_filter import stream_name

OPEN = 5                      # kind of an open stream


@libc('fopen', 'fopen64')
def c_fopen(eng, st, a, ins):
    sf = need_str(eng, st, a[0], ins, 'file name')
    need_str(eng, st, a[1], ins, 'mode')
    mode = st.const_str(a[1])
    s1, s2 = st.copy(), st
    p = ext_obj(eng, s1, 216, kind=OPEN)
    s1.events += (('fopen', a[0], sf, mode, p),)
    s2.events += (('fopen', a[0], sf, mode, NULL),)
    h = getattr(eng.spec, 'on_fopen', None)
    for s, r in ((s1, p), (s2, NULL)):
        if h:
            h(eng, s, a[0], sf, mode, r, ins)
    return [(s1, p), (s2, NULL)]


def is_open(eng, st, p):
    """p is a stream opened by the program and not yet closed, or one of the standard streams"""
    if stream_name(eng, st, p) is not None:
        return True
    return And(ne(p.o, 0), eq(p.f, 0), eq(st.kind(p.o), OPEN))


@libc('fclose')
def c_fclose(eng, st, a, ins):
    p = a[0]
    eng.oblige(st, And(ne(p.o, 0), eq(p.f, 0), eq(st.kind(p.o), OPEN)), 'fclose of a stream the program opened', ins)
    st.wr('kind', p.o, 0, 0)
    st.events += (('fclose', p),)
    return eng.fresh_val(st, ('int', 32), 'fclose')


@libc('feof', 'ferror', 'fileno', 'clearerr')
def c_feof(eng, st, a, ins):
    eng.oblige(st, is_open(eng, st, a[0]), 'the stream is open', ins)
    return eng.fresh_val(st, ('int', 32), ins.a[1][1])


# ---------------------------------------------------------------- reading
# The bytes a stream delivers are a function of the position (spec.stream); the position and what is known about the
# end of the stream are ghosts.  A specification that follows a stream provides on_read/on_stream; others get a reader of
# which nothing is known but that it stays inside the buffer it is given.
EOF = -1


def stream_of(eng, st, p, ins):
    eng.oblige(st, is_open(eng, st, p), 'the stream is open', ins)
    s = getattr(eng.spec, 'stream', None)
    return s(st) if s else None


@libc('fgets')
def c_fgets(eng, st, a, ins):
    buf, n, f = a
    n = eng.sgn(n, 32)
    IN = stream_of(eng, st, f, ins)
    eng.oblige(st, And(le(1, n), in_object(st, buf, n)), 'fgets stays inside the buffer', ins)
    if eng.frame is not None:
        eng.oblige(st, eng.frame(st, buf, n), 'write allowed by the contract frame', ins)
    if IN is None:
        return fgets_any(eng, st, buf, n, f, ins)
    eng.spec.on_read(eng, st, f, ins)
    g = st.ghost
    s1, s2 = st.copy(), st
    junk = z3.Function(fresh_name('junk'), IntS, IntS)
    for s in (s1, s2):
        UFAll('bytes', junk.name(), lambda i: And(le(0, atom(junk(z(i)))), le(atom(junk(z(i))), 255)), 1).assume(eng, s)
    # end of the stream, or an error
    write_region(eng, s2, 'i8', buf.o, buf.f, add(buf.f, n), lambda i: atom(junk(z(i))), [], ins, False)
    s2.ghost['end'] = 1
    # k bytes
    k, rp = fresh('got'), g['rp']
    s1.assume(And(le(1, k), lt(k, n)))
    UFAll('a newline ends a piece', IN.name(), lambda i: Imp(And(le(rp, i), lt(i, sub(add(rp, k), 1))), ne(atom(IN(z(i))), 10)), 1).assume(eng, s1)
    d = sub(rp, buf.f)
    write_region(eng, s1, 'i8', buf.o, buf.f, add(buf.f, n),
                 lambda i: ite(lt(i, add(buf.f, k)), atom(IN(z(add(i, d)))), ite(eq(i, add(buf.f, k)), 0, atom(junk(z(i))))), [], ins, False)
    s1.ghost['rp'] = add(rp, k)
    s1.ghost['last'] = 0
    e = fresh('ateof')
    s1.assume(Or(eq(e, 0), eq(e, 1)), Or(eq(e, 1), eq(add(k, 1), n), eq(atom(IN(z(sub(add(rp, k), 1)))), 10)))
    s1.ghost['eof'] = e
    if eng.spec.text:
        eng.assume_str(s1, buf, k)
    else:
        l = fresh('len')
        s1.assume(And(le(0, l), le(l, k)))
        eng.assume_str(s1, buf, l)
    return [(s1, buf), (s2, NULL)]


def fgets_any(eng, st, buf, n, f, ins):
    h = getattr(eng.spec, 'on_line', None)
    s1, s2 = st.copy(), st
    for s in (s1, s2):
        s.havoc(('range', 'i8', buf.o, buf.f, add(buf.f, n)))
    l = fresh('len')
    s1.assume(And(le(0, l), lt(l, n)))
    sf = eng.assume_str(s1, buf, l)
    if h:
        h(eng, s1, f, buf, sf, ins)
        h(eng, s2, f, NULL, None, ins)
    return [(s1, buf), (s2, NULL)]


@libc('fgetc', 'getc', 'getchar')
def c_fgetc(eng, st, a, ins):
    if ins.a[1][1] == 'getchar':
        a = [st.rdptr(eng.glob('stdin'), 0)]
    IN = stream_of(eng, st, a[0], ins)
    if IN is None:
        r = fresh('byte')
        st.assume(And(le(-1, r), le(r, 255)))
        return r
    eng.spec.on_read(eng, st, a[0], ins)
    s1, s2 = st.copy(), st
    rp = st.ghost['rp']
    r = atom(IN(z(rp)))
    s1.ghost.update(rp=add(rp, 1), last=1)
    s2.ghost.update(eof=1, last=0)
    return [(s1, r), (s2, EOF)]


@libc('ungetc')
def c_ungetc(eng, st, a, ins):
    IN = stream_of(eng, st, a[1], ins)
    c = eng.sgn(a[0], 32)
    if IN is None:
        return eng.fresh_val(st, ('int', 32), 'ungetc')
    s1, s2 = fork(st, eq(c, EOF), ne(c, EOF))
    out = []
    if s1 is not None:
        out.append((s1, EOF))
    if s2 is not None:
        rp = sub(s2.ghost['rp'], 1)
        b = imod(c, 256)
        eng.oblige(s2, eq(s2.ghost['last'], 1), 'one byte is pushed back, after it was read', ins)
        eng.oblige(s2, eq(b, atom(IN(z(rp)))), 'the byte pushed back is the one read last', ins)
        s2.ghost.update(rp=rp, last=0)
        out.append((s2, b))
    return out
