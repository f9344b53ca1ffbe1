"""libc contracts: the file system."""
import z3
from term import *
from engine import *
from contracts import *

STAT = dict(dev=('i64', 0), ino=('i64', 8), nlink=('i64', 16), mode=('i32', 24))
STATSIZE = 144
NAMEOFF, DIRENT = 19, 280
STREAM = 51                   # role: objects of the C library (directory streams, files)


class StatOf:
    pass


@libc('lstat', 'stat')
def c_stat(eng, st, a, ins):
    nm = ins.a[1][1]
    p, buf = a
    sf = need_str(eng, st, p, ins, nm + ' path')
    eng.oblige(st, in_object(st, buf, STATSIZE), nm + ' result fits its buffer', ins)
    if eng.frame is not None:
        eng.oblige(st, eng.frame(st, buf, STATSIZE), 'write allowed by the contract frame', ins)
    m = st.mem['i8']
    for c in ('i64', 'i32'):
        st.havoc(('range', c, buf.o, buf.f, add(buf.f, STATSIZE)))
    log_range(st, buf, STATSIZE)
    e = StatOf()
    for k, (c, off) in STAT.items():
        setattr(e, k, st.rd(c, buf.o, add(buf.f, off)))
    out = []
    for r in (0, -1):
        s = st.copy()
        s.events += ((nm, p, sf, r, e, m),)
        out.append((s, r))
    return out


def is_mode(eng, st, mode, fmt):
    return eq(eng.bitand(st, mode, 0o170000, 32), fmt)


@libc('rename')
def c_rename(eng, st, a, ins):
    x = need_str(eng, st, a[0], ins, 'old path')
    y = need_str(eng, st, a[1], ins, 'new path')
    h = getattr(eng.spec, 'on_rename', None)
    if h is None:
        eng.oblige(st, z3.BoolVal(False), 'files are renamed only where the contracts allow it', ins, props=['C02', 'C03', 'C04'], assume=False)
    else:
        h(eng, st, a[0], x, a[1], y, ins)
    out = []
    for r in (0, -1):
        s = st.copy()
        s.events += (('rename', a[0], x, a[1], y, r),)
        out.append((s, r))
    return out


@libc('unlink', 'remove', 'rmdir', 'link', 'symlink', 'mkdir', 'renameat', 'renameat2', 'truncate', 'chmod', 'creat')
def c_change(eng, st, a, ins):
    eng.oblige(st, z3.BoolVal(False), 'the file system is changed by rename only', ins, props=['C02', 'C03', 'C04'], assume=False)
    return eng.fresh_val(st, ('int', 32), 'rc')


def ext_obj(eng, st, size, kind=4):
    p = st.alloc(size, kind=kind)
    st.assume(eq(role(p.o), STREAM))
    return p


@libc('opendir')
def c_opendir(eng, st, a, ins):
    sf = need_str(eng, st, a[0], ins, 'directory name')
    s1, s2 = st.copy(), st.copy()
    d = ext_obj(eng, s1, 64)
    s1.events += (('opendir', a[0], sf, d),)
    s2.events += (('opendir', a[0], sf, NULL),)
    for s in (s1, s2):
        h = getattr(eng.spec, 'on_opendir', None)
        if h:
            h(eng, s, ins)
    return [(s1, d), (s2, NULL)]


@libc('readdir')
def c_readdir(eng, st, a, ins):
    d = a[0]
    eng.oblige(st, And(ne(d.o, 0), eq(d.f, 0), eq(st.kind(d.o), 4)), 'readdir of an open directory', ins)
    h = getattr(eng.spec, 'on_readdir', None)
    if h:
        h(eng, st, d, ins)
    s1, s2 = st.copy(), st
    # the entry lives until the next call
    o = s1.alloc(DIRENT, kind=2).o
    s1.assume(eq(role(o), STREAM))
    n = fresh('namelen')
    s1.assume(le(n, 255), le(1, n))
    e = Ptr(o, 0)
    eng.assume_str(s1, Ptr(o, NAMEOFF), n)
    # a name contains no separator
    m = s1.mem['i8']
    All('noslash', 'i8', o, NAMEOFF, 1, 0, n, lambda k: ne(read(m, o, add(NAMEOFF, k), eng, None), 47), mems=[m]).assume(eng, s1)
    h = getattr(eng.spec, 'after_readdir', None)
    for s, r in ((s1, e), (s2, NULL)):
        s.events += (('readdir', d, r),)
        if h:
            h(eng, s, d, r, ins)
    return [(s1, e), (s2, NULL)]


@libc('closedir')
def c_closedir(eng, st, a, ins):
    d = a[0]
    eng.oblige(st, And(ne(d.o, 0), eq(d.f, 0), eq(st.kind(d.o), 4)), 'closedir of an open directory', ins)
    st.wr('kind', d.o, 0, 0)
    st.events += (('closedir', d),)
    return eng.fresh_val(st, ('int', 32), 'closedir')
