"""libc contracts: the command line."""
import re
import z3
from term import *
from engine import *
from contracts import *
import contracts


class CommandLine:
    """what the command line holds: the options, in any number and order, then the remaining arguments (any number of
    strings).  getopt_long yields the options one by one and leaves the remaining arguments at the end of argv"""
    def __init__(self, eng, st, argc, argv):
        self.argc, self.argv = argc, argv
        self.n = fresh('nrest')
        self.AO, self.AF, self.AL, self.AV = [z3.Function(fresh_name(x), IntS, IntS) for x in ('argo', 'argf', 'argl', 'argv')]
        self.prog = fresh('sv')            # last component of argv[0]
        st.assume(And(le(0, self.n), le(add(self.n, 1), argc)))
        self.next = st.next
        eng.upper_of[self.AO.name()] = st.next
        st.data['strhooks'] = st.data.get('strhooks', ()) + (self.hook,)

    def ptr(self, i):
        return Ptr(atom(self.AO(z(i))), atom(self.AF(z(i))))

    def val(self, i):
        return atom(self.AV(z(i)))

    def hook(self, eng, st, p):
        x, c = eng.head(p.o)
        if x is None or c or x.num_args() == 0:
            return None
        if x.decl().name() == self.AO.name():
            i = fromz(x.arg(0))
        elif x.decl().name().startswith('po') and eng.same_obj(st, fromz(x.arg(0)), self.argv.o) is True:
            j = sub(fromz(x.arg(1)), self.argv.f)
            i = sub(idiv(j, 8), sub(self.argc, self.n))
        else:
            return None
        if not eng.holds(st, And(le(0, i), lt(i, self.n), eq(p.o, self.ptr(i).o), eq(p.f, self.ptr(i).f))):
            return None
        return eng.assume_str_if(st, True, p, atom(self.AL(z(i))), self.val(i))

    def settle(self, eng, st):
        """argv after the last option was taken"""
        m = {c: st.mem[c] for c in ('po', 'pf')}
        a = self.argv
        off = add(a.f, scale(sub(self.argc, self.n), 8))
        for c, f in (('po', self.AO), ('pf', self.AF)):
            All('arguments', c, a.o, off, 8, 0, self.n, lambda i, c=c, f=f: eq(read(m[c], a.o, add(off, scale(i, 8)), eng, None), atom(f(z(i)))), mems=[m[c]]).assume(eng, st)


def longopts(eng, st, p):
    """the table of long options: [(name, takes an argument, flag, value)]"""
    name = eng.globs.get(p.o) if isinstance(p.o, int) else None
    if name is None or not isinstance(p.f, int) or p.f:
        return None
    M = eng.M
    refs = len(re.findall(r'@%s\b(?![.\w])' % re.escape(name), M.body_text))
    mine = len(re.findall(r'call [^\n]*@getopt_long\([^\n]*@%s\b(?![.\w])' % re.escape(name), M.body_text))
    if refs != mine and not M.globals[name]['const']:
        return None
    c = {k: {} for k in DATA}
    eng.flatten(M.globals[name]['type'], M.globals[name]['init'], 0, c)
    out = []
    k = 0
    while c['po'].get(k):
        s = st.const_str(Ptr(c['po'][k], c['pf'].get(k, 0)))
        if s is None:
            return None
        out.append((s.decode('latin1'), c['i32'].get(k + 8, 0), Ptr(c['po'].get(k + 16, 0), c['pf'].get(k + 16, 0)), c['i32'].get(k + 24, 0)))
        k += 32
    return out


@libc('getopt_long', 'getopt')
def c_getopt(eng, st, a, ins):
    cl = getattr(eng.spec, 'cl', None)
    if cl is None:
        raise Unsupported('getopt outside the parsing of options')
    so = st.const_str(a[2])
    lo = longopts(eng, st, a[3]) if len(a) > 3 else []
    if so is None or lo is None:
        raise Unsupported('options that are not constants')
    if len(a) > 4:
        eng.oblige(st, eq(a[4].o, 0), 'getopt_long: no index is asked for', ins)
    eng.oblige(st, And(eq(a[0], cl.argc), eq(a[1].o, cl.argv.o), eq(a[1].f, cl.argv.f)), 'the options are those of the command line', ins, props=['C22'])
    so = so.decode('latin1')
    if so[:1] in '+-:':
        raise Unsupported('special modes of getopt')
    shorts = []
    k = 0
    while k < len(so):
        shorts.append((so[k], so[k + 1:k + 2] == ':'))
        if so[k + 1:k + 3] == '::':
            raise Unsupported('optional arguments')
        k += 2 if shorts[-1][1] else 1
    eng.spec.offered(eng, st, shorts, lo, ins)
    # getopt keeps its state in variables of its own and may reorder argv
    st.havoc(('obj', 'p', cl.argv.o))
    oi, oa = eng.glob('optind'), eng.glob('optarg')
    optind = eng.fresh_val(st, ('int', 32), 'optind')
    st.assume(And(le(1, optind), le(optind, cl.argc)))
    st.wr('i32', oi, 0, optind)

    def case(code, arg, name):
        s = st.copy()
        p = NULL
        if arg:
            p = new_ext_str(eng, s, 'optarg', kind=2)
        s.wrptr(oa, 0, p)
        sf = eng.find_str(s, p) if arg else None
        eng.spec.option(eng, s, name, p, sf, ins)
        return s, code
    out = []
    for ch, arg in shorts:
        if ch != '?':
            out.append(case(ord(ch), arg, '-' + ch))
    for nm, arg, flag, v in lo:
        s, code = case(v, arg == 1, '--' + nm)
        if not (isinstance(flag.o, int) and flag.o == 0):
            s.wr('i32', flag.o, flag.f, v)
            code = 0
        out.append((s, code))
    out.append(case(ord('?'), False, '?'))
    s = st.copy()
    s.assume(eq(optind, sub(cl.argc, cl.n)))
    cl.settle(eng, s)
    eng.spec.option(eng, s, None, NULL, None, ins)
    out.append((s, -1))
    return out


@libc('basename', '__xpg_basename')
def c_basename(eng, st, a, ins):
    p = a[0]
    sf = need_str(eng, st, p, ins, 'argument of basename')
    cl = getattr(eng.spec, 'cl', None)
    mine = cl is not None and eng.holds(st, And(eq(p.o, cl.arg0.o), eq(p.f, cl.arg0.f)))
    v = cl.prog if mine else fresh('sv')
    out = []
    s = st.copy()
    s.assume(eq(sf.n, 0))
    if s.feasible():
        r = new_ext_str(eng, s, 'basename')
        f = eng.find_str(s, r)
        s.assume(eq(f.n, 1), eq(f.val, v), eq(v, eng.const_val(b'.')))
        out.append((s, r))
    s = st.copy()
    s.assume(lt(0, sf.n))
    if s.feasible():
        if eng.frame is not None:
            eng.oblige(s, eng.frame(s, p, add(sf.n, 1)), 'write of basename allowed by the contract frame', ins)
        s.havoc(('range', 'i8', p.o, p.f, add(add(p.f, sf.n), 1)))
        d, n = fresh('baseat'), fresh('baselen')
        s.assume(And(le(0, d), le(1, n), le(add(d, n), sf.n)))
        eng.assume_str(s, Ptr(p.o, add(p.f, d)), n, v)
        out.append((s, Ptr(p.o, add(p.f, d))))
    return out
