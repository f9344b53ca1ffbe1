"""Filters and sequences: dispatch, order of application, table loading, choice of the sequence (C15, C18)."""
import z3
import layout
from term import *
import term as T
from engine import *
from contracts import *
from specs_filter import Either, CopyOf, clean_val
from specs_table import *
from specs_table import View, TABLE, TEXT, TROWS, COUNTERS, DFLT, TableInv, table_meaning, find_table, new_view
from loops import Cand

SPECS = {}


def spec(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


FILTER, SEQ = 31, 32          # roles
NEXT, CLEANER, FNAME, FBUILTIN, TRAIL, MAXLEN, FTABLE, FSIZE = layout.one('filter_t')
SNEXT, SNAME, SFILTERS, SSOURCE, SSIZE = layout.one('sequence_t')
ISO, LOWER, MAXL, SAFE, UNCGI, UTF8, WIPEUP = range(1, 8)
CLEANERS = {ISO: 'clean_iso8859_1', LOWER: 'clean_lower', MAXL: 'clean_max_length', SAFE: 'clean_safe', UNCGI: 'clean_uncgi', UTF8: 'clean_utf_8', WIPEUP: 'clean_wipeup'}
THEAD = z3.Function('usable_table', IntS, IntS)        # ghost: the object is a usable table (in the state the contract speaks of)


def counters_pred(o, i):
    """statistics of tables"""
    if isinstance(i, int) and i not in COUNTERS:
        return False
    return And(eq(role(o), TABLE), Or(*[eq(i, c) for c in COUNTERS]) if not isinstance(i, int) else True)


COUNTER_WRITES = ('pred', 'i32', counters_pred, 'counters')


class Tables:
    """every object marked as a usable table is one, in the state this was created in, with its meaning"""
    immune = ('counters',)

    def __init__(self, eng, st):
        self.eng = eng
        self.N = st.next
        self.MID, self.DL, self.DV = [z3.Function(fresh_name(x), IntS, IntS) for x in ('mid', 'dl', 'dv')]
        self.snap = Fact('tables', 0, self, st, self.free)
        st.data['tablehooks'] = st.data.get('tablehooks', ()) + (self.hook,)
        st.data['strhooks'] = st.data.get('strhooks', ()) + (self.default,)
        m = dict(st.mem)
        self.m = m
        THN = 'usable_table'

        def r(args):
            o = fromz(args[0])
            return [Imp(And(eq(atom(THEAD(z(o))), 1), ne(o, 0)), And(eq(role(o), TABLE), lt(o, self.N), le(TSIZE, read(m['size'], o, 0, eng, None)), ne(read(m['kind'], o, 0, eng, None), 0)))]
        st.rules([(THN, r)])

    @staticmethod
    def free(eng, st, cls, o2, lo, hi):
        if cls in ('i16', 'i64'):
            return True
        if cls == 'i8':
            return not_role(eng, st, o2, TEXT)
        if cls == 'i32' and isinstance(lo, int) and lo in COUNTERS and not_role(eng, st, o2, TROWS):
            return True
        return not_role(eng, st, o2, TABLE, TROWS, TEXT)

    def marked(self, eng, st, t):
        return eng.holds(st, Imp(ne(t.o, 0), And(eq(atom(THEAD(z(t.o))), 1), lt(t.o, self.N))))

    def hook(self, eng, st, t):
        if not self.marked(eng, st, t) or not self.snap.holds(eng, st):
            return None
        k = ('tview', id(self), key(t.o))
        if k in st.data:
            f = st.data[k]
            st.data['facts'] = st.data.get('facts', ()) + (f,)
            return f
        v = View()
        v.o = t.o
        v.mid = atom(self.MID(z(t.o)))
        v.rows = st.rdptr(t.o, ROWS)
        f = Fact('table', t.o, v, st, self.free)
        f.note(st)
        st.data[k] = f
        return f

    def meaning(self, t):
        """meaning of the table pointer t in the state of this object"""
        eng, m = self.eng, self.m
        d = read(m['po'], t.o, DFLT, eng, None)
        dv = ite(eq(d, 0), -1, atom(self.DV(z(d))))
        return ite(eq(t.o, 0), 0, atom(z3.Function('meaning_of', IntS, IntS, IntS)(z(atom(self.MID(z(t.o)))), z(dv))))

    def default(self, eng, st, p):
        """the default of a marked table is a string"""
        x, c = eng.head(p.o)
        if x is None or c or x.num_args() != 2 or not x.decl().name().startswith('po'):
            return None
        t = Ptr(fromz(x.arg(0)), 0)
        if fromz(x.arg(1)) != DFLT or not self.marked(eng, st, t) or not self.snap.holds(eng, st):
            return None
        # the default of a marked table is NULL or a string (assumed under the condition that it is not NULL)
        return eng.assume_str_if(st, ne(p.o, 0), p, atom(self.DL(z(p.o))), atom(self.DV(z(p.o))))


class Chain:
    """a singly linked list hanging off a pointer: nodes NODE(0..N-1), NODE(N) is NULL"""
    def __init__(self, eng, st, head, rl, size, facts=None, name='node'):
        self.eng, self.head = eng, head
        self.NODE, self.IDX = z3.Function(fresh_name(name), IntS, IntS), z3.Function(fresh_name('idx'), IntS, IntS)
        self.N = fresh('len_' + name)
        m = dict(st.mem)
        self.m = m
        nx = st.next
        eng.upper_of[self.NODE.name()] = nx
        NODE, IDX, N = self.NODE, self.IDX, self.N
        link = NEXT if rl == FILTER else SNEXT

        def r(args):
            i = fromz(args[0])
            o = atom(NODE(z(i)))
            inr = And(le(0, i), lt(i, N))
            out = [Imp(inr, And(lt(0, o), lt(o, nx), eq(role(o), rl), ne(read(m['kind'], o, 0, eng, None), 0), le(size, read(m['size'], o, 0, eng, None)), eq(atom(IDX(z(o))), i),
                                eq(read(m['pf'], o, link, eng, None), 0))), Imp(eq(i, N), eq(o, 0))]
            if eng._cur_gen <= 1:
                out.append(Imp(inr, eq(read(m['po'], o, link, eng, None), atom(NODE(z(add(i, 1)))))))
            if facts is not None:
                out += [Imp(inr, f) for f in facts(i, o)]
            return out
        st.rules([(NODE.name(), r)])
        st.assume(le(0, N), lt(N, 2 ** 31), eq(atom(IDX(0)), N), eq(atom(NODE(0)), head.o), eq(head.f, 0))

    def node(self, i):
        return atom(self.NODE(z(i)))

    def idx(self, o):
        return atom(self.IDX(z(o)))

    def on(self, p):
        """p is a node of the list, or NULL (its end)"""
        i = self.idx(p.o)
        return And(le(0, i), le(i, self.N), eq(self.node(i), p.o), eq(p.f, 0))

    def rd(self, cls, i, off):
        return read(self.m[cls], self.node(i), off, self.eng, None)

    def rdp(self, i, off):
        return Ptr(self.rd('po', i, off), self.rd('pf', i, off))


def walk_measures(*chains):
    """what is left of a list"""
    out = []
    for c in chains:
        def m(phi, st, c=c):
            for n, p in phi.items():
                if isinstance(p, Ptr) and st.eng.holds(st, c.on(p)):
                    return sub(c.N, c.idx(p.o))
            return None
        out.append(('rest of the list', m))
    return out


def filter_val(cleaner, trail, maxlen, meaning, v):
    """what one filter makes of the text v"""
    r = fresh('sv')
    for c, fn in CLEANERS.items():
        s = ()
        if c in (ISO, SAFE, UTF8):
            s = (meaning,)
        elif c == WIPEUP:
            s = (ite(eq(trail, 0), 0, 1),)
        elif c == MAXL:
            s = (ku64(maxlen),)
        r = ite(eq(cleaner, c), clean_val(fn, v, *s), r)
    return r


def ku64(x):
    return x % 2 ** 64 if isinstance(x, int) else ite(lt(x, 0), add(x, 2 ** 64), x)


@spec
class FilterRun(FnSpec):
    name = 'filter_run'
    props = ('C15',)
    variants = ('no filter', 'no name', 'no table', 'table', 'table with default')

    def vary(self, eng, st, args, variant):
        if variant == 'no filter':
            return [NULL] + args[1:]
        if variant == 'no name':
            return [args[0], NULL]
        return args

    def requires(self, eng, st, args):
        f, p = args
        if eng.spec is not self:
            t = Ptr(f.o, f.f)
            tb = st.rdptr(f.o, add(f.f, FTABLE))
            return [F('filter is a filter', Or(eq(f.o, 0), And(le(0, f.f), le(add(f.f, FSIZE), st.size(f.o)), ne(st.kind(f.o), 0), eq(role(f.o), FILTER)))),
                    Either('name is NULL or a string', p, IsStr('name is a string', p)),
                    Either('table is NULL or usable', tb, TableInv('table is usable', tb, nullok=True)), DefaultOk('the default of the table, if any, is a string', tb)]
        r = []
        if self.variant != 'no filter':
            r.append(F('filter', And(eq(f.f, 0), ne(f.o, 0), eq(role(f.o), FILTER), le(FSIZE, st.size(f.o)), ne(st.kind(f.o), 0))))
            tb = st.rdptr(f.o, FTABLE)
            if self.variant in ('no table', 'no name'):
                r.append(F('no table', eq(tb.o, 0)))
            else:
                r.append(TableInv('table is usable', tb, dflt='some' if self.variant == 'table with default' else 'none'))
        if self.variant != 'no name':
            self.n, self.val = fresh('n'), fresh('sv')
            r.append(Str('name is a string', p, self.n, self.val))
        return r

    def modifies(self, eng, st, args):
        return [COUNTER_WRITES]

    def value(self, eng, pre, args):
        f, p = args
        sf = eng.find_str(pre, p)
        tb = pre.rdptr(f.o, add(f.f, FTABLE))
        return filter_val(pre.rd('i32', f.o, add(f.f, CLEANER)), pre.rd('i32', f.o, add(f.f, TRAIL)), pre.rd('i64', f.o, add(f.f, MAXLEN)),
                          table_meaning(eng, pre, tb), sf.val if sf is not None else fresh('sv'))

    def cases(self, eng, pre, args):
        f, p = args
        mine = eng.spec is self
        none = Case('no name', lambda s, r: eq(p.o, 0), lambda s, r: [F('no result', eq(r.o, 0))])

        def post(s, r):
            cl = pre.rd('i32', f.o, add(f.f, CLEANER))
            return [Fresh('result is new', r, pre), F('the entry names a cleaning', And(le(1, cl), le(cl, 7))),
                    TextIs('the result is what the named cleaning makes of the name', r, lambda: self.value(eng, pre, args))]
        if mine and self.variant == 'no filter':
            return [Case('never', lambda s, r: False, lambda s, r: [])]
        if mine and self.variant == 'no name':
            return [none]
        return ([] if mine else [none]) + [Case('cleaned', lambda s, r: ne(p.o, 0) if not mine else ne(r.o, 0), post, make=fresh_ptr)]


class TextIs(Clause):
    """r points to a string with the given value"""
    def __init__(self, name, r, val, props=None):
        self.name, self.r, self.val, self.props = name, r, val, props

    def assume(self, eng, st):
        sf = eng.assume_str(st, self.r, fresh('len'), self.val())
        h = getattr(eng.spec, 'on_cleaned', None)
        if h:
            h(eng, st, self.r, sf)

    def prove(self, eng, st, what):
        sf = eng.find_str(st, self.r)
        return sf is not None and eng.prove(st, eq(sf.val, self.val()), what)


class Sequence:
    """a sequence with its filters and their tables"""
    immune = ('counters',)

    def __init__(self, eng, st, q):
        self.eng = eng
        self.tables = Tables(eng, st)
        st.assume(And(ne(q.o, 0), eq(q.f, 0), eq(role(q.o), SEQ), le(SSIZE, st.size(q.o)), ne(st.kind(q.o), 0)))
        h = st.rdptr(q.o, SFILTERS)
        m = dict(st.mem)

        def facts(i, o):
            t = read(m['po'], o, FTABLE, eng, None)
            return [Or(eq(t, 0), And(eq(atom(THEAD(z(t))), 1), lt(0, t), lt(t, st.next))), eq(read(m['pf'], o, FTABLE, eng, None), 0)]
        nxt = st.next
        self.chain = Chain(eng, st, h, FILTER, FSIZE, facts, 'filter')
        self.W = z3.Function(fresh_name('stage'), IntS, IntS)

    def stages(self, st, v0):
        """W(0) is the name, W(i+1) what filter i makes of W(i)"""
        c = self.chain
        W = self.W

        def r(args):
            i = fromz(args[0])
            tb = c.rdp(i, FTABLE)
            nxt = filter_val(c.rd('i32', i, CLEANER), c.rd('i32', i, TRAIL), c.rd('i64', i, MAXLEN), self.tables.meaning(tb), atom(W(z(i))))
            return [Imp(And(le(0, i), lt(i, c.N)), eq(atom(W(z(add(i, 1)))), nxt))] if self.eng._cur_gen == 0 else []
        st.rules([(W.name(), r)])
        st.assume(eq(atom(W(0)), v0))

    def stage(self, i):
        return atom(self.W(z(i)))


@spec
class SequenceRun(FnSpec):
    name = 'sequence_run_filters'
    props = ('C15',)
    variants = ('no sequence', 'no name', 'run')

    def vary(self, eng, st, args, variant):
        if variant == 'no sequence':
            return [NULL] + args[1:]
        if variant == 'no name':
            return [args[0], NULL]
        return args

    def requires(self, eng, st, args):
        r = []
        q, p = args
        if eng.spec is not self:
            return [Either('name is NULL or a string', p, IsStr('name is a string', p)), Either('sequence is NULL or usable', q, SeqOk('sequence is usable', q))]
        if self.variant != 'no name':
            self.n, self.val = fresh('n'), fresh('sv')
            r.append(Str('name is a string', p, self.n, self.val))
        return r

    def begin(self, eng, st, args, fn):
        self.q = None
        if self.variant == 'no sequence':
            return
        self.q = Sequence(eng, st, args[0])
        if self.variant == 'run':
            self.q.stages(st, self.val)

    def modifies(self, eng, st, args):
        return [COUNTER_WRITES]

    def effects(self, eng, pre, st, args):
        h = getattr(eng.spec, 'on_run', None)
        if h:
            h(eng, st, args)

    def candidates(self, v):
        if self.variant != 'run':
            return []
        eng, q = v.eng, self.q
        c = q.chain
        out = []
        N0 = eng.pre.next
        for n in v.ptrs():
            out.append(Cand('%s walks the filters' % n, lambda w, n=n: c.on(w.phi[n])))
        for a in v.ptrs():
            for b in v.ptrs():
                if a != b:
                    out.append(Cand('%s holds the result of the filters before %s' % (b, a), lambda w, a=a, b=b: Owned('text', w.phi[b], N0, q.stage(c.idx(w.phi[a].o)))))
        return out

    def measures(self, eng):
        return walk_measures(self.q.chain) if self.q else []

    def cases(self, eng, pre, args):
        mine = eng.spec is self
        q, p = args
        if mine and self.variant == 'no sequence':
            return [Case('never', lambda s, r: False, lambda s, r: [])]
        if mine and self.variant == 'no name':
            return [Case('no name', lambda s, r: True, lambda s, r: [F('no result', eq(r.o, 0))])]
        if mine:
            return [Case('cleaned', lambda s, r: ne(r.o, 0), lambda s, r: [Fresh('result is new', r, pre),
                         TextIs('the filters are applied in order, each to the previous result', r, lambda: self.q.stage(self.q.chain.N))])]
        def post(s, r):
            f = find_fact(eng, s, 'seq', q.o)
            sf = eng.find_str(pre, p)
            return [Fresh('result is new', r, pre), TextIs('the cleaned name', r, lambda: f.view.clean(sf.val) if f is not None and sf is not None else fresh('sv'))]
        return [Case('no name', lambda s, r: And(eq(p.o, 0)), lambda s, r: [F('no result', eq(r.o, 0))]),
                Case('cleaned', lambda s, r: And(ne(p.o, 0), ne(q.o, 0)), post, make=fresh_ptr)]


class Owned(Clause):
    """p is a block of this function, holding a string with the given value"""
    def __init__(self, name, p, N0, val):
        self.name, self.p, self.N0, self.val = name, p, N0, val

    def f(self, st):
        p = self.p
        return And(le(self.N0, p.o), lt(p.o, st.next), eq(p.f, 0), eq(st.kind(p.o), 1))

    def assume(self, eng, st):
        st.assume(self.f(st))
        eng.assume_str(st, self.p, fresh('len'), self.val)

    def prove(self, eng, st, what):
        if not eng.prove(st, self.f(st), what):
            return False
        sf = eng.find_str(st, self.p)
        return sf is not None and eng.prove(st, eq(sf.val, self.val), what)


class SeqView:
    immune = ('counters',)

    def __init__(self):
        self.RUN = z3.Function(fresh_name('cleaned'), IntS, IntS)

    def clean(self, v):
        return atom(self.RUN(z(v)))


def seq_cells(eng, st, cls, o2, lo, hi):
    if cls in ('i16',):
        return True
    if cls == 'i32' and isinstance(lo, int) and lo in COUNTERS and not_role(eng, st, o2, TROWS, FILTER, SEQ):
        return True
    return not_role(eng, st, o2, TABLE, TROWS, TEXT, FILTER, SEQ)


class SeqOk(Clause):
    """q points to a sequence whose filters and tables are usable"""
    def __init__(self, name, q, props=None):
        self.name, self.q, self.props = name, q, props

    def assume(self, eng, st):
        if find_fact(eng, st, 'seq', self.q.o) is not None:
            return
        v = SeqView()
        st.assume(And(ne(self.q.o, 0), eq(self.q.f, 0), eq(role(self.q.o), SEQ), ne(st.kind(self.q.o), 0), le(SSIZE, st.size(self.q.o))))
        Fact('seq', self.q.o, v, st, seq_cells).note(st)

    def prove(self, eng, st, what):
        f = find_fact(eng, st, 'seq', self.q.o)
        return f is not None and f.holds(eng, st) and eng.holds(st, eq(self.q.f, 0))


# ---------------------------------------------------------------- lists of sequences (C18)
NAME = 33


class SeqList(Chain):
    """a list of sequences with their names; a search key splits it at the first sequence of that name"""
    immune = ('counters',)

    def __init__(self, eng, st, head):
        super().__init__(eng, st, head, SEQ, SSIZE, self.name_facts, 'seq')
        self.NL, self.NV = z3.Function(fresh_name('nl'), IntS, IntS), z3.Function(fresh_name('nv'), IntS, IntS)
        self.nx = st.next
        self.snap = Fact('names', 0, self, st, self.free)
        st.data['strhooks'] = st.data.get('strhooks', ()) + (self.name_of,)

    def name_facts(self, i, o):
        n = read(self.m['po'], o, SNAME, self.eng, None)
        return [And(lt(0, n), eq(role(n), NAME)), le(0, read(self.m['pf'], o, SNAME, self.eng, None))]

    @staticmethod
    def free(eng, st, cls, o2, lo, hi):
        if cls == 'i8' or cls == 'kind':
            return not_role(eng, st, o2, NAME, SEQ)
        if cls in ('po', 'pf'):
            return not_role(eng, st, o2, SEQ)
        return True

    def val(self, i):
        return atom(self.NV(z(i)))

    def name_of(self, eng, st, p):
        x, c = eng.head(p.o)
        if x is None or c or x.num_args() != 2 or not x.decl().name().startswith('po'):
            return None
        o = fromz(x.arg(0))
        i = self.idx(o)
        q = Ptr(o, 0)
        if not eng.holds(st, And(self.on(q), lt(i, self.N), eq(p.o, read(self.m['po'], self.node(i), SNAME, eng, None)), eq(p.f, read(self.m['pf'], self.node(i), SNAME, eng, None)))):
            return None
        if not self.snap.holds(eng, st):
            return None
        return eng.assume_str(st, p, atom(self.NL(z(i))), self.val(i))

    def first(self, st, k):
        """index of the first sequence named k, or the length"""
        Fi = fresh('first')
        st.assume(And(le(0, Fi), le(Fi, self.N)), Imp(lt(Fi, self.N), eq(self.val(Fi), k)))

        def r(args):
            i = fromz(args[0])
            return [Imp(And(le(0, i), lt(i, Fi)), ne(self.val(i), k))]
        st.rules([(self.NV.name(), r)])
        return Fi


@spec
class SequenceChoose(FnSpec):
    name = 'sequence_choose_default'
    props = ('C18',)
    variants = ('unnamed', 'named')
    allocates = False

    def vary(self, eng, st, args, variant):
        return [args[0], NULL] if variant == 'unnamed' else args

    def requires(self, eng, st, args):
        if eng.spec is not self:
            return []
        if self.variant == 'named':
            self.n, self.val = fresh('n'), fresh('sv')
            return [Str('name is a string', args[1], self.n, self.val)]
        self.val = eng.const_val(b'default')
        return []

    def begin(self, eng, st, args, fn):
        self.list = SeqList(eng, st, args[0])
        self.first = self.list.first(st, self.val)

    def candidates(self, v):
        c = self.list
        out = []
        for n in v.ptrs():
            out.append(Cand('%s walks the sequences' % n, lambda w, n=n: c.on(w.phi[n])))
            out.append(Cand('%s not past the first match' % n, lambda w, n=n: And(c.on(w.phi[n]), le(c.idx(w.phi[n].o), self.first))))
            out.append(Cand('%s is NULL or the first match' % n, lambda w, n=n: Or(eq(w.phi[n].o, 0), And(lt(self.first, c.N), eq(w.phi[n].o, c.node(self.first)), eq(w.phi[n].f, 0)))))
            for m in v.ptrs():
                if m != n:
                    out.append(Cand('no match before %s while %s is NULL' % (n, m), lambda w, n=n, m=m: Imp(eq(w.phi[m].o, 0), And(c.on(w.phi[n]), le(c.idx(w.phi[n].o), self.first)))))
            for m in v.ints():
                for val in (0, 1):
                    out.append(Cand('no match before %s while %s is %d' % (n, m, val), lambda w, n=n, m=m, val=val: Imp(eq(w.phi[m], val), And(c.on(w.phi[n]), le(c.idx(w.phi[n].o), self.first)))))
            out.append(Cand('%s stays NULL' % n, lambda w, n=n: eq(w.phi[n].o, 0)))
        for n in v.ints():
            for m in v.ptrs():
                out.append(Cand('%s tells whether %s is the first match' % (n, m), lambda w, n=n, m=m: Iff(ne(w.phi[n], 0), And(eq(c.idx(w.phi[m].o), self.first), lt(self.first, c.N)))))
        return out

    def measures(self, eng):
        return walk_measures(self.list)

    def cases(self, eng, pre, args):
        if eng.spec is not self:
            return [Case('chosen', lambda s, r: True, lambda s, r: [])]
        c, fi = self.list, self.first
        found = lt(fi, c.N)
        return [Case('there is a sequence of that name', lambda s, r: found, lambda s, r: [F('the first of that name', And(eq(r.o, c.node(fi)), eq(r.f, 0)))]),
                Case('no such sequence', lambda s, r: Not(found), lambda s, r: [
                    F('none when a name was asked for' if self.variant == 'named' else 'the first one defined', eq(r.o, 0 if self.variant == 'named' else args[0].o))])]

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        q, n = args
        out = []
        for s, named in zip(fork(st, eq(n.o, 0), ne(n.o, 0)), (False, True)):
            if s is not None:
                if named:
                    need_str(eng, s, n, ins, 'sequence name')
                out.append(self.choose(eng, s, q, n))
        return out

    def choose(self, eng, st, q, n):
        r = eng.fresh_val(st, ('ptr',), 'sequence')
        st.assume(eq(r.f, 0))
        h = getattr(eng.spec, 'on_choose', None)
        st.events = st.events + (('choose', q, n, r),)
        if h:
            h(eng, st, q, n, r)
        return st, r


def gptr(eng, st, name):
    """value of a pointer variable of the program"""
    return st.rdptr(eng.glob(name), 0)


def gcell(eng, name):
    return ('cell', 'p', eng.glob(name), 0)


@spec
class AppendFilter(FnSpec):
    name = 'cf_append_filter'
    props = ('C18', 'C15')
    variants = tuple((a, b, c) for a in ('first', 'more') for b in ('no builtin', 'builtin') for c in ('no file', 'file'))

    def vary(self, eng, st, args, variant):
        a = list(args)
        if variant[1] == 'no builtin':
            a[1] = NULL
        if variant[2] == 'no file':
            a[2] = NULL
        return a

    def requires(self, eng, st, args):
        r = []
        if eng.spec is not self:
            return r
        self.sf = {}
        for k, i in (('builtin', 1), ('file', 2)):
            if k in self.variant:
                self.sf[k] = (fresh('n'), fresh('sv'))
                r.append(Str('%s is a string' % k, args[i], *self.sf[k]))
        first, cur = gptr(eng, st, 'cf_filter_ret'), gptr(eng, st, 'cf_filter_current')
        if self.variant[0] == 'first':
            r.append(F('no filter so far', eq(first.o, 0)))
        else:
            r.append(F('a list of filters so far, with its last one', And(ne(first.o, 0), ne(cur.o, 0), eq(cur.f, 0), eq(role(cur.o), FILTER), le(FSIZE, st.size(cur.o)), eq(st.kind(cur.o), 1), le(1, cur.o), lt(cur.o, st.next))))
        return r

    def modifies(self, eng, st, args):
        if eng.spec is not self:
            return []
        m = [gcell(eng, 'cf_filter_ret'), gcell(eng, 'cf_filter_current')]
        if self.variant[0] == 'more':
            m.append(('cell', 'p', gptr(eng, st, 'cf_filter_current').o, NEXT))
        return m

    def cases(self, eng, pre, args):
        if eng.spec is not self:
            return [Case('returns', lambda s, r: True, lambda s, r: [])]
        cl, bi, fi, ml, tr = args
        r0, c0 = gptr(eng, pre, 'cf_filter_ret'), gptr(eng, pre, 'cf_filter_current')

        def post(s, r):
            w, h = gptr(eng, s, 'cf_filter_current'), gptr(eng, s, 'cf_filter_ret')
            out = [Fresh('a new entry', w, pre), F('with room for its fields', le(FSIZE, s.size(w.o))),
                   F('the cleaning asked for', eq(s.rd('i32', w.o, CLEANER), cl)), F('the option asked for', eq(s.rd('i32', w.o, TRAIL), tr)),
                   F('the length asked for', eq(s.rd('i64', w.o, MAXLEN), ml)), F('it is the last entry', eq(s.rdptr(w.o, NEXT).o, 0)), F('no table yet', eq(s.rdptr(w.o, FTABLE).o, 0))]
            if self.variant[0] == 'first':
                out.append(F('it starts the list', And(eq(h.o, w.o), eq(h.f, 0))))
            else:
                out.append(F('earlier entries stay', And(eq(h.o, r0.o), eq(h.f, r0.f))))
                n = s.rdptr(c0.o, NEXT)
                out.append(F('it follows the last entry', And(eq(n.o, w.o), eq(n.f, 0))))
            for k, p, off in (('builtin', bi, FBUILTIN), ('file', fi, FNAME)):
                q = s.rdptr(w.o, off)
                if k in self.variant:
                    out += [Fresh('a private copy of the %s name' % k, q, pre), CopyOf('the %s name' % k, q, p, self.sf[k][0], None, pre.mem['i8'])]
                else:
                    out.append(F('no %s name' % k, eq(q.o, 0)))
            return out
        return [Case('appended', lambda s, r: True, post)]


@spec
class AppendSequence(FnSpec):
    name = 'cf_append_sequence_list'
    props = ('C18',)
    variants = tuple((a, b) for a in ('none yet', 'some') for b in ('unnamed', 'named'))

    def requires(self, eng, st, args):
        if eng.spec is not self:
            return []
        r = []
        self.fsf = (fresh('n'), fresh('sv'))
        cf = gptr(eng, st, 'current_filename')
        r.append(Str('the name of the configuration file is a string', cf, *self.fsf))
        nm = gptr(eng, st, 'current_name')
        if self.variant[1] == 'named':
            self.nsf = (fresh('n'), fresh('sv'))
            r.append(Str('the name of the sequence is a string', nm, *self.nsf))
        else:
            self.nsf = (7, eng.const_val(b'default'))
            r.append(F('no name', eq(nm.o, 0)))
        return r

    def begin(self, eng, st, args, fn):
        h, cur = gptr(eng, st, 'cf_sequence_ret'), gptr(eng, st, 'cf_sequence_current')
        c = self.list = SeqList(eng, st, h)
        self.first = c.first(st, self.nsf[1])
        if self.variant[0] == 'none yet':
            st.assume(eq(c.N, 0))
        else:
            st.assume(le(1, c.N), eq(cur.o, c.node(sub(c.N, 1))), eq(cur.f, 0))
        # names differ pairwise
        a = self.nd = lambda i, j: Imp(And(le(0, i), lt(i, c.N), le(0, j), lt(j, c.N), eq(c.val(i), c.val(j))), eq(i, j))

        def r(args):
            i = fromz(args[0])
            return [self.nd(i, fromz(x.arg(0))) for x in eng._cur_apps.get(c.NV.name(), ())]
        st.rules([(c.NV.name(), r)])

    def modifies(self, eng, st, args):
        if eng.spec is not self:
            return []
        c = self.list if hasattr(self, 'list') else None
        m = [gcell(eng, x) for x in ('cf_sequence_ret', 'cf_sequence_current', 'cf_filter_ret', 'cf_filter_current', 'current_name')]
        if self.variant[0] == 'some':
            m.append(('cell', 'p', gptr(eng, st, 'cf_sequence_current').o, SNEXT))
            k = c.node(self.first)
            m += [('cell', 'p', k, SFILTERS), ('cell', 'p', k, SSOURCE)]
        return m

    def candidates(self, v):
        c = self.list
        out = []
        for n in v.ptrs():
            out.append(Cand('%s walks the sequences' % n, lambda w, n=n: c.on(w.phi[n])))
            out.append(Cand('%s not past the first match' % n, lambda w, n=n: And(c.on(w.phi[n]), le(c.idx(w.phi[n].o), self.first))))
            out.append(Cand('%s is NULL or the first match' % n, lambda w, n=n: Or(eq(w.phi[n].o, 0), And(lt(self.first, c.N), eq(w.phi[n].o, c.node(self.first)), eq(w.phi[n].f, 0)))))
            for m in v.ptrs():
                if m != n:
                    out.append(Cand('no match before %s while %s is NULL' % (n, m), lambda w, n=n, m=m: Imp(eq(w.phi[m].o, 0), And(c.on(w.phi[n]), le(c.idx(w.phi[n].o), self.first)))))
            for m in v.ints():
                for val in (0, 1):
                    out.append(Cand('no match before %s while %s is %d' % (n, m, val), lambda w, n=n, m=m, val=val: Imp(eq(w.phi[m], val), And(c.on(w.phi[n]), le(c.idx(w.phi[n].o), self.first)))))
        return out

    def measures(self, eng):
        return walk_measures(self.list)

    def cases(self, eng, pre, args):
        if eng.spec is not self:
            return [Case('returns', lambda s, r: True, lambda s, r: [])]
        c, fi = self.list, self.first
        h0, c0 = gptr(eng, pre, 'cf_sequence_ret'), gptr(eng, pre, 'cf_sequence_current')
        f0 = gptr(eng, pre, 'cf_filter_ret')
        found = lt(fi, c.N)
        i = fresh('i')
        inr = And(le(0, i), lt(i, c.N))

        def common(s, w):
            h, cur = gptr(eng, s, 'cf_sequence_ret'), gptr(eng, s, 'cf_sequence_current')
            n = c.node(i)
            wf = s.rdptr(w.o, SFILTERS)
            a, b = gptr(eng, s, 'cf_filter_ret'), gptr(eng, s, 'cf_filter_current')
            s.touch(n)
            p0, p1 = pre.rdptrq(n, SNAME), s.rdptrq(n, SNAME)
            q0, q1 = pre.rdptrq(n, SFILTERS), s.rdptrq(n, SFILTERS)
            x0, x1 = pre.rdptrq(n, SNEXT), s.rdptrq(n, SNEXT)
            return [F('the sequence has the filters just read', And(eq(wf.o, f0.o), eq(wf.f, f0.f))), F('the next sequence starts without filters', And(eq(a.o, 0), eq(b.o, 0))),
                    F('every sequence keeps its name', Imp(inr, And(eq(p0.o, p1.o), eq(p0.f, p1.f)))),
                    F('every other sequence keeps its filters', Imp(And(inr, ne(n, w.o)), And(eq(q0.o, q1.o), eq(q0.f, q1.f)))),
                    F('the order of definition is kept', Imp(And(inr, lt(add(i, 1), c.N)), And(eq(x0.o, x1.o), eq(x0.f, x1.f))))]

        def replaced(s, r):
            w = Ptr(c.node(fi), 0)
            h, cur = gptr(eng, s, 'cf_sequence_ret'), gptr(eng, s, 'cf_sequence_current')
            n = s.rdptr(c.node(sub(c.N, 1)), SNEXT)
            return common(s, w) + [F('the list stays', And(eq(h.o, h0.o), eq(h.f, h0.f), eq(cur.o, c0.o), eq(cur.f, c0.f), eq(n.o, 0)))]

        def appended(s, r):
            w = gptr(eng, s, 'cf_sequence_current')
            h = gptr(eng, s, 'cf_sequence_ret')
            q = s.rdptr(w.o, SNAME)
            nm = gptr(eng, pre, 'current_name') if self.variant[1] == 'named' else None
            sf = eng.find_str(s, q)
            out = common(s, w) + [Fresh('a new sequence', w, pre), F('with room for its fields', le(SSIZE, s.size(w.o))), F('at the end', eq(s.rdptr(w.o, SNEXT).o, 0)),
                                  F('its name is a private copy', And(le(pre.next, q.o), eq(s.kind(q.o), 1))),
                                  F('under its name', eq(sf.val, self.nsf[1]) if sf is not None else z3.BoolVal(False)),
                                  F('the name is new', Imp(inr, ne(c.val(i), self.nsf[1])))]
            if self.variant[0] == 'none yet':
                out.append(F('it is the only one', And(eq(h.o, w.o), eq(h.f, 0))))
            else:
                x = s.rdptr(c.node(sub(c.N, 1)), SNEXT)
                out.append(F('after all others', And(eq(h.o, h0.o), eq(h.f, h0.f), eq(x.o, w.o), eq(x.f, 0))))
            return out
        return [Case('redefined', lambda s, r: found, replaced), Case('new', lambda s, r: Not(found), appended)]


# ---------------------------------------------------------------- loading the tables of a sequence (C15)
LOADED = 1000                 # ghost field of a filter: the table that was loaded for it last (0: none)
TABLES = {ISO: 'iso8859_1', UTF8: 'unicode', SAFE: 'safe'}
DIRS = (b'/usr/local/share/detox/', b'/usr/share/detox/', b'/usr/local/share/detox/')      # DATADIR as compiled, then the fixed ones


def text_is(eng, m, p, sf, b):
    """the text sf at p (in the byte memory m) is the constant b"""
    if sf is None:
        return False
    c = eng.const_cstr(p.o, p.f) if isinstance(p.o, int) and p.o < 0 and isinstance(p.f, int) else None
    if c is not None:
        return c == b
    if isinstance(sf.n, int) and sf.n != len(b):
        return False
    return And(eq(sf.n, len(b)), *[eq(read(m, p.o, add(p.f, k), eng, None), c) for k, c in enumerate(b)])


@spec
class ParseTable(FnSpec):
    """reads a table file: NULL, or a usable table"""
    name = 'parse_table'
    props = ()

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        sf = need_str(eng, st, args[0], ins, 'file name of the table')
        m = st.mem['i8']
        s1, s2 = st.copy(), st
        o = s1.alloc(TSIZE).o
        s1.assume(eng.new_next(s1))
        s1.havoc(('obj', 'i32', o))
        s1.havoc(('obj', 'p', o))
        new_view(eng, s1, Ptr(o, 0))
        s1.events += (('parse_table', args[0], sf, m, Ptr(o, 0)),)
        s2.assume(eng.new_next(s2))
        s2.events += (('parse_table', args[0], sf, m, NULL),)
        return [(s1, Ptr(o, 0)), (s2, NULL)]


@spec
class FilterLoadTable(FnSpec):
    name = 'filter_load_table'
    props = ('C15',)
    variants = tuple((a, b) for a in ('no builtin', 'builtin') for b in ('no file', 'file'))

    def requires(self, eng, st, args):
        f, = args
        if eng.spec is not self:
            return [F('filter', And(ne(f.o, 0), le(0, f.f), le(add(f.f, FSIZE), st.size(f.o)), ne(st.kind(f.o), 0), eq(role(f.o), FILTER))),
                    Either('builtin name is NULL or a string', st.rdptr(f.o, add(f.f, FBUILTIN)), IsStr('builtin name is a string', st.rdptr(f.o, add(f.f, FBUILTIN)))),
                    Either('file name is NULL or a string', st.rdptr(f.o, add(f.f, FNAME)), IsStr('file name is a string', st.rdptr(f.o, add(f.f, FNAME))))]
        r = [F('filter', And(eq(f.f, 0), ne(f.o, 0), eq(role(f.o), FILTER), le(FSIZE, st.size(f.o)), ne(st.kind(f.o), 0)))]
        self.sf = {}
        for k, off in (('builtin', FBUILTIN), ('file', FNAME)):
            p = st.rdptr(f.o, off)
            if k in self.variant:
                self.sf[k] = (fresh('n'), fresh('sv'))
                r.append(Str('%s name is a string' % k, p, *self.sf[k]))
            else:
                r.append(F('no %s name' % k, eq(p.o, 0)))
        return r

    def cases(self, eng, pre, args):
        f, = args
        if eng.spec is not self:
            return []
        cl = pre.rd('i32', f.o, CLEANER)
        needs = Or(*[eq(cl, c) for c in TABLES])

        def post(s, r):
            ev = [e for e in s.events if happened(e, ('parse_table', 'table'))]
            files = [e for e in ev if e[0] == 'parse_table']
            built = [e for e in ev if e[0] == 'table']
            if 'builtin' in self.variant:
                n, v = self.sf['builtin']
                ok = len(ev) == 1 and len(built) == 1
                out = [F('the built-in table of that name', And(ok, eq(r.o, built[0][1].o), eq(v, eng.const_val(built[0][3].encode()))) if ok else z3.BoolVal(False))]
            elif 'file' in self.variant:
                ok = len(ev) == 1 and len(files) == 1
                out = [F('the table in that file', And(eq(r.o, files[0][4].o), eq(files[0][2].val, self.sf['file'][1])) if ok else z3.BoolVal(False))]
            else:
                g = len(files) <= 3 and len(built) <= 1
                g = g and ev == files + built
                conds = []
                if g:
                    for c, nm in TABLES.items():
                        want = [d + nm.encode() + b'.tbl' for d in DIRS]
                        k = [text_is(eng, e[3], e[1], e[2], w) for e, w in zip(files, want)]
                        if built:
                            k += [len(files) == 3, built[0][3] == nm] + [eq(e[4].o, 0) for e in files]
                        else:
                            k += [len(files) >= 1] + [eq(e[4].o, 0) for e in files[:-1]] + [ne(e[4].o, 0) for e in files[-1:]]
                        k += [eq(r.o, (built[0][1] if built else files[-1][4] if files else NULL).o)]
                        conds.append(Imp(eq(cl, c), And(*k)))
                out = [F('the first table found in the documented places, else the built-in one of the cleaning', And(*conds) if g else z3.BoolVal(False))]
            return out
        return [Case('a table', lambda s, r: And(needs, ne(r.o, 0), eq(r.f, 0)), post),
                Case('this cleaning needs no table', lambda s, r: And(Not(needs), eq(r.o, 0)), lambda s, r: [F('nothing is read', z3.BoolVal(not any(happened(e, ('parse_table', 'table')) for e in s.events)))])]

    def on_exit(self, eng, st, code, ins):
        files = [e for e in st.events if e[0] == 'parse_table']
        if 'builtin' in self.variant:
            ok = And(*[ne(self.sf['builtin'][1], eng.const_val(x)) for x in (b'iso8859_1', b'unicode', b'safe', b'cp1252')])
        elif 'file' in self.variant:
            ok = Or(*[eq(e[4].o, 0) for e in files])
        else:
            ok = False
        eng.oblige(st, ok if not isinstance(ok, bool) else z3.BoolVal(ok), 'gives up only when the table asked for cannot be had', ins, assume=False)

    def apply(self, eng, st, args, ins, t):
        f, = args
        eng.used_contracts.add(self.name)
        for c in self.requires(eng, st, args):
            eng.oblige(st, c, '%s: requires %s' % (self.name, c.name), ins)
        cl = st.rd('i32', f.o, add(f.f, CLEANER))
        needs = Or(*[eq(cl, c) for c in TABLES])
        out = []
        s1, s2 = fork(st, needs, Not(needs))
        if s1 is not None:
            o = s1.alloc(TSIZE).o
            s1.assume(eng.new_next(s1))
            s1.assume(eq(s1.kind(o), 1), eq(s1.size(o), TSIZE))
            s1.havoc(('obj', 'i32', o))
            s1.havoc(('obj', 'p', o))
            new_view(eng, s1, Ptr(o, 0))
            s1.wr('i64', f.o, LOADED, o)
            out.append((s1, Ptr(o, 0)))
        if s2 is not None:
            s2.wr('i64', f.o, LOADED, 0)
            out.append((s2, NULL))
        return out


class Nodes(Clause):
    """for every node i of the chain with lo <= i < hi: body(i)"""
    def __init__(self, name, chain, lo, hi, body, props=None):
        self.name, self.chain, self.lo, self.hi, self.body, self.props = name, chain, lo, hi, body, props

    def inst(self, i):
        return Imp(And(le(self.lo, i), lt(i, self.hi)), self.body(i))

    def assume(self, eng, st):
        def r(args):
            b = self.inst(fromz(args[0]))
            return [] if b is True else [b]
        st.rules([(self.chain.NODE.name(), r)])

    def prove(self, eng, st, what):
        i = fresh('i')
        st = st.copy()
        st.touch(self.chain.node(i))
        return eng.prove(st, self.inst(i), what)


@spec
class SequenceReview(FnSpec):
    name = 'sequence_review'
    props = ('C15',)

    def requires(self, eng, st, args):
        return []

    def begin(self, eng, st, args, fn):
        q = args[0]
        st.assume(And(ne(q.o, 0), eq(q.f, 0), eq(role(q.o), SEQ), le(SSIZE, st.size(q.o)), ne(st.kind(q.o), 0)))
        self.chain = Chain(eng, st, st.rdptr(q.o, SFILTERS), FILTER, FSIZE, None, 'filter')
        self.chain.role = FILTER
        # names of filters are NULL or strings; nothing this function does can change them
        SL, SV = z3.Function(fresh_name('sl'), IntS, IntS), z3.Function(fresh_name('sval'), IntS, IntS)
        snap = Fact('filternames', 0, self, st, self.free)

        def hook(eng, st, p):
            x, c = eng.head(p.o)
            if x is None or c or x.num_args() != 2 or not x.decl().name().startswith('po') or not any(const_diff(fromz(x.arg(1)), k) == 0 for k in (FNAME, FBUILTIN)):
                return None
            o = fromz(x.arg(0))
            if not eng.holds(st, And(self.chain.on(Ptr(o, 0)), lt(self.chain.idx(o), self.chain.N))) or not snap.holds(eng, st):
                return None
            return eng.assume_str_if(st, ne(p.o, 0), p, atom(SL(z(p.o))), atom(SV(z(p.o))))
        st.data['strhooks'] = st.data.get('strhooks', ()) + (hook,)
        # (a string that is not NULL is not a filter, nor a table, nor text of one)
        def nm(args):
            i = fromz(args[0])
            out = []
            for off in (FNAME, FBUILTIN):
                p = self.chain.rd('po', i, off)
                out.append(Imp(And(le(0, i), lt(i, self.chain.N)), Or(eq(p, 0), eq(role(p), NAME))))
            return out
        st.rules([(self.chain.NODE.name(), nm)])

    immune = ('tables of filters',)

    @staticmethod
    def free(eng, st, cls, o2, lo, hi):
        if cls in ('i16', 'i64', 'i32'):
            return True
        if cls in ('po', 'pf'):
            return lo == FTABLE
        return not_role(eng, st, o2, NAME)

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        q = args[0]
        eng.oblige(st, And(ne(q.o, 0), eq(q.f, 0)), 'sequence_review: requires a sequence', ins)
        for d in self.modifies(eng, st, args):
            st.havoc(d)
        st.assume(eng.new_next(st))
        SeqOk('', q).assume(eng, st)
        return [(st, None)]

    def modifies(self, eng, st, args):
        if not hasattr(self, 'wr'):
            self.wr = lambda o, i: And(eq(role(o), FILTER), eq(i, FTABLE))
            self.gh = lambda o, i: And(eq(role(o), FILTER), eq(i, LOADED))
        return [('pred', 'p', self.wr, 'tables of filters'), ('pred', 'i64', self.gh, 'tables of filters')]

    def candidates(self, v):
        c = self.chain
        out = []
        pre = v.eng.pre
        for n in v.ptrs():
            out.append(Cand('%s walks the filters' % n, lambda w, n=n: c.on(w.phi[n])))
            out.append(Cand('filters before %s have their tables' % n, lambda w, n=n: Nodes('tables', c, 0, c.idx(w.phi[n].o), lambda i: self.done(pre, w.st, i))))
            out.append(Cand('filters from %s on are as before' % n, lambda w, n=n: Nodes('rest', c, c.idx(w.phi[n].o), c.N, lambda i: eq(w.st.rdq('po', c.node(i), FTABLE), c.rd('po', i, FTABLE)))))
        return out

    def done(self, pre, st, i):
        n = self.chain.node(i)
        t, g = st.rdptrq(n, FTABLE), st.rdq('i64', n, LOADED)
        old = self.chain.rdp(i, FTABLE)
        return bite(eq(g, 0), eq(t.o, old.o), And(eq(t.o, g), eq(t.f, 0)))

    def measures(self, eng):
        return walk_measures(self.chain)

    def cases(self, eng, pre, args):
        c = self.chain

        def post(s, r):
            return [Nodes('every filter has the table loaded for it', c, 0, c.N, lambda i: self.done(pre, s, i))]
        return [Case('reviewed', lambda s, r: True, post)]
