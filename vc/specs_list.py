"""File lists (C20): the representation invariant, its view as a sequence of strings, and the six operations."""
import z3
import layout
from term import *
import term as T
from engine import *
from contracts import *
from specs_filter import Either, CopyOf, oom_exit
from loops import Cand

SPECS = {}


def spec(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


FILES, MAX, COUNT, PTR, LSIZE = layout.one('filelist_t')


class ListView:
    """what a list means: count entries; entry i is the string at item(i)"""
    immune = ('counters', 'tables of filters')

    def __init__(self):
        self.IO, self.IL, self.IV, self.IDX = [z3.Function(fresh_name(x), IntS, IntS) for x in ('itemo', 'iteml', 'itemv', 'itemidx')]

    def obj(self, i):
        return atom(self.IO(z(i)))

    def ptr(self, i):
        return Ptr(self.obj(i), 0)

    def len(self, i):
        return atom(self.IL(z(i)))

    def val(self, i):
        return atom(self.IV(z(i)))

    def idx(self, o):
        return atom(self.IDX(z(o)))

    def install(self, eng, st, o, heap=True):
        """representation invariant in st; o: the list object"""
        self.o = o
        st.assume(ne(o, 0), eq(st.kind(o), 1) if heap else ne(st.kind(o), 0), le(LSIZE, st.size(o)))
        self.files = st.rdptr(o, FILES)
        self.count, self.max, self.pos = [st.rd('i32', o, k) for k in (COUNT, MAX, PTR)]
        fo = self.files.o
        st.assume(ne(fo, 0), ne(fo, o), eq(self.files.f, 0), eq(st.kind(fo), 1), le(scale(self.max, 8), st.size(fo)), lt(fo, st.next))
        st.assume(eq(role(o), LIST), eq(role(fo), LIST))
        st.assume(And(le(0, self.pos), le(self.pos, self.count), le(self.count, self.max), le(1, self.max)))
        N = st.next
        eng.upper_of[self.IO.name()] = N
        kn, sn = st.mem['kind'], st.mem['size']

        def r(args):
            i = fromz(args[0])
            x = self.obj(i)
            return [Imp(And(le(0, i), lt(i, self.count)),
                        And(eq(role(x), ITEM), eq(read(kn, x, 0, eng, None), 1), ne(x, 0), ne(x, o), ne(x, fo), lt(x, N), eq(self.idx(x), i),
                            le(0, self.len(i)), lt(self.len(i), STRMAX), lt(self.len(i), read(sn, x, 0, eng, None))))]
        st.rules([(self.IO.name(), r)])
        for cls, f in (('po', lambda i: self.obj(i)), ('pf', lambda i: 0)):
            m = st.mem[cls]
            All('entries', cls, fo, 0, 8, 0, self.count, lambda i, m=m, f=f: eq(read(m, fo, scale(i, 8), eng, None), f(i)), mems=[m]).assume(eng, st)


LIST, ITEM = 21, 22         # roles: a list and its storage, the text of an entry


def position_cell(o, v):
    """cells the meaning of a list does not depend on"""
    def fc(eng, st, cls, o2, lo, hi):
        if cls in ('i16', 'i64'):
            return True
        if cls == 'i8':
            return not_role(eng, st, o2, ITEM)
        if cls == 'i32' and isinstance(lo, int) and lo == PTR and eng.same_obj(st, o, o2) is True:
            return True
        if eng.same_obj(st, o, o2) is not False or eng.same_obj(st, v.files.o, o2) is not False:
            return not_role(eng, st, o2, LIST)
        return cls != 'kind' or not_role(eng, st, o2, ITEM)
    return fc


class ListInv(Clause):
    def __init__(self, name, p, props=None):
        self.name, self.p, self.props = name, p, props

    def assume(self, eng, st):
        f = find_list(eng, st, self.p)
        if f is not None and f.holds(eng, st):
            return
        v = ListView()
        st.assume(eq(self.p.f, 0))
        v.install(eng, st, self.p.o)
        Fact('list', self.p.o, v, st, position_cell(self.p.o, v)).note(st)

    def prove(self, eng, st, what):
        f = find_list(eng, st, self.p)
        return (f is not None and f.holds(eng, st) and eng.holds(st, eq(self.p.f, 0))
                and eng.holds(st, And(le(0, st.rd('i32', self.p.o, PTR)), le(st.rd('i32', self.p.o, PTR), f.view.count))))


def find_list(eng, st, p):
    return find_fact(eng, st, 'list', p.o)


class ListFn(FnSpec):
    props = ('C20',)
    variants = ('null', 'list')
    allocates = False

    def vary(self, eng, st, args, variant):
        return [NULL] + args[1:] if variant == 'null' else args

    def requires(self, eng, st, args):
        if eng.spec is self:
            return [ListInv('list is well formed', args[0])] if self.variant == 'list' else []
        return [Either('list is NULL or well formed', args[0], ListInv('list is well formed', args[0]))]

    def begin(self, eng, st, args, fn):
        if self.variant == 'list':
            self.view = find_list(eng, st, args[0]).view

    # callers
    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        p = args[0]
        out = []
        s0, s1 = fork(st, eq(p.o, 0), ne(p.o, 0))
        if s0 is not None:
            out += self.use_null(eng, s0, args, ins)
        if s1 is not None:
            c = ListInv('list is well formed', p)
            eng.oblige(s1, c, '%s: requires a well-formed list' % self.name, ins, assume=False)
            f = find_list(eng, s1, p)
            if f is None:
                c.assume(eng, s1)
                f = find_list(eng, s1, p)
            out += self.use(eng, s1, p, f.view, args, ins)
        return out

    def use_null(self, eng, st, args, ins):
        return [(st, self.null_result)]
    null_result = None

    def set_pos(self, eng, st, p, v, ins):
        if eng.frame is not None:
            eng.oblige(st, eng.frame(st, Ptr(p.o, PTR), 4), 'write of %s allowed by the contract frame' % self.name, ins)
        st.wr('i32', p.o, PTR, v)


class Cellular(ListFn):
    """operations that only need the record itself"""
    def requires(self, eng, st, args):
        if eng.spec is self and self.variant == 'null':
            return []
        return [F('list is NULL or a live record', Or(eq(args[0].o, 0), in_object(st, args[0], LSIZE)))]

    def begin(self, eng, st, args, fn):
        if self.variant == 'list':
            st.assume(ne(args[0].o, 0))

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        for c in self.requires(eng, st, args):
            eng.oblige(st, c, '%s: requires %s' % (self.name, c.name), ins)
        s0, s1 = fork(st, eq(args[0].o, 0), ne(args[0].o, 0))
        out = []
        if s0 is not None:
            out.append((s0, self.null_result))
        if s1 is not None:
            out += self.use(eng, s1, args[0], None, args, ins)
        return out


@spec
class Count(Cellular):
    name = 'filelist_count'
    null_result = 0

    def cases(self, eng, pre, args):
        if self.variant == 'null':
            return [Case('no list', lambda s, r: eq(r, 0), lambda s, r: [])]
        return [Case('counted', lambda s, r: True, lambda s, r: [F('the number of entries', eq(r, pre.rd('i32', args[0].o, add(args[0].f, COUNT))))])]

    def use(self, eng, st, p, v, args, ins):
        return [(st, st.rd('i32', p.o, add(p.f, COUNT)))]


@spec
class Reset(Cellular):
    name = 'filelist_reset'

    def modifies(self, eng, st, args):
        return [] if args[0] is NULL else [('cell', 'i32', args[0].o, add(args[0].f, PTR))]

    def cases(self, eng, pre, args):
        if self.variant == 'null':
            return [Case('no list', lambda s, r: True, lambda s, r: [])]
        return [Case('rewound', lambda s, r: True, lambda s, r: [F('the pass starts over', eq(s.rd('i32', args[0].o, add(args[0].f, PTR)), 0))])]

    def use(self, eng, st, p, v, args, ins):
        if eng.frame is not None:
            eng.oblige(st, eng.frame(st, Ptr(p.o, add(p.f, PTR)), 4), 'write of %s allowed by the contract frame' % self.name, ins)
        st.wr('i32', p.o, PTR if eng.holds(st, eq(p.f, 0)) else add(p.f, PTR), 0)
        return [(st, None)]


@spec
class Get(ListFn):
    name = 'filelist_get'
    null_result = NULL

    def modifies(self, eng, st, args):
        return [] if args[0] is NULL else [('cell', 'i32', args[0].o, PTR)]

    def cases(self, eng, pre, args):
        if self.variant == 'null':
            return [Case('no list', lambda s, r: eq(r.o, 0), lambda s, r: [])]
        v, o = self.view, args[0].o
        pos = lambda s: s.rd('i32', o, PTR)
        return [Case('end', lambda s, r: eq(v.pos, v.count),
                     lambda s, r: [F('the end is reported', eq(r.o, 0)), F('the pass starts over', eq(pos(s), 0))]),
                Case('entry', lambda s, r: lt(v.pos, v.count),
                     lambda s, r: [F('the entry at the position', And(eq(r.o, v.obj(v.pos)), eq(r.f, 0))),
                                   F('the position moves on by one', eq(pos(s), add(v.pos, 1)))])]

    def use(self, eng, st, p, v, args, ins):
        pos = st.rd('i32', p.o, PTR)
        out = []
        h = getattr(eng.spec, 'on_get', None)
        if h:
            h(eng, st, p, v, pos, ins)
        s1, s2 = fork(st, le(v.count, pos), lt(pos, v.count))
        if s1 is not None:
            self.set_pos(eng, s1, p, 0, ins)
            s1.events = s1.events + (('entryend', p),)
            if h:
                eng.spec.after_get(eng, s1, p, NULL, ins)
            out.append((s1, NULL))
        if s2 is not None:
            self.set_pos(eng, s2, p, add(pos, 1), ins)
            r = v.ptr(pos)
            s2.touch(r.o)
            eng.assume_str(s2, r, v.len(pos), v.val(pos))
            s2.events = s2.events + (('entry', p, pos, r),)
            if h:
                eng.spec.after_get(eng, s2, p, r, ins)
            out.append((s2, r))
        return out


@spec
class Init(FnSpec):
    name = 'filelist_init'
    props = ('C20',)

    def params(self, eng, st, fn):
        return []

    def cases(self, eng, pre, args):
        def post(s, r):
            f = s.rdptr(r.o, FILES)
            c, m, p = [s.rd('i32', r.o, k) for k in (COUNT, MAX, PTR)]
            return [Fresh('new list', r, pre), F('room for the record', le(LSIZE, s.size(r.o))),
                    Fresh('new storage', f, pre), F('storage is separate', ne(f.o, r.o)),
                    F('storage as large as recorded', And(le(1, m), le(scale(m, 8), s.size(f.o)))),
                    F('the list is empty', And(eq(c, 0), eq(p, 0)))]
        return [Case('created', lambda s, r: ne(r.o, 0), post, make=fresh_ptr)]

    def apply(self, eng, st, args, ins, t):
        out = super().apply(eng, st, args, ins, t)
        for s, r in out:
            new_list(eng, s, r)
            s.assume(eq(find_list(eng, s, r).view.count, 0))
        return out


def new_list(eng, s, p, old=None, added=None):
    """the view of a list after an operation established its invariant; its entries are those of old, plus added"""
    v = ListView()
    v.install(eng, s, p.o)
    if old is not None:
        def r(args):
            i = fromz(args[0])
            same = And(eq(v.obj(i), old.obj(i)), eq(v.len(i), old.len(i)), eq(v.val(i), old.val(i)))
            last = And(eq(v.obj(i), added[0].o), eq(v.len(i), added[1].n), eq(v.val(i), added[1].val))
            return [And(Imp(And(le(0, i), lt(i, old.count)), same), Imp(eq(i, old.count), last))]
        s.rules([(v.IO.name(), r), (v.IV.name(), r)])
    Fact('list', p.o, v, s, position_cell(p.o, v)).note(s)
    return v


@spec
class Put(ListFn):
    name = 'filelist_put'
    allocates = True

    def requires(self, eng, st, args):
        r = super().requires(eng, st, args)
        if eng.spec is self:
            self.n = fresh('n')
            r.append(Str('name is a string', args[1], self.n))
        return r

    def begin(self, eng, st, args, fn):
        super().begin(eng, st, args, fn)
        if self.variant == 'list':
            v = self.view
            # fewer than 2^31 - chunk entries (the entry counter is an int)
            st.assume(lt(v.max, 2 ** 31 - 4096))
            eng.assumptions['a list has fewer than 2^31-4096 entries (its counters are ints)'] = 1

    def modifies(self, eng, st, args):
        if args[0] is NULL:
            return []
        v = find_list(eng, st, args[0]).view
        return [('obj', c, args[0].o) for c in ('i32', 'p')] + [('obj', 'p', v.files.o)]

    def frees(self, eng, st, args):
        return [] if args[0] is NULL else [find_list(eng, st, args[0]).view.files]

    def cases(self, eng, pre, args):
        if self.variant == 'null':
            return []
        v, o, p = self.view, args[0].o, args[1]
        m0 = pre.mem['i8']

        def post(s, r):
            f = s.rdptr(o, FILES)
            c, m, pos = [s.rd('i32', o, k) for k in (COUNT, MAX, PTR)]
            q = s.rdptr(f.o, scale(v.count, 8))
            i = fresh('i')
            old = And(le(0, i), lt(i, v.count))
            s.touch(v.obj(i))
            e = s.rdptr(f.o, scale(i, 8))
            return [F('one entry more', eq(c, add(v.count, 1))), F('the pass starts over', eq(pos, 0)),
                    F('storage is a live block', And(ne(f.o, 0), eq(f.f, 0), eq(s.kind(f.o), 1), ne(f.o, o))),
                    F('storage as large as recorded', And(le(c, m), le(scale(m, 8), s.size(f.o)))),
                    F('the list itself stays alive', eq(s.kind(o), 1)),
                    F('every earlier entry is kept', Imp(old, And(eq(e.o, v.obj(i)), eq(e.f, 0)))),
                    F('every earlier entry stays alive, apart from the storage', Imp(old, And(eq(s.kind(v.obj(i)), 1), ne(v.obj(i), f.o), ne(v.obj(i), o)))),
                    Fresh('the new entry is a private block', q, pre),
                    F('the new entry is not the storage', And(ne(q.o, f.o), lt(self.n, s.size(q.o)))),
                    CopyOf('the new entry is a copy of the name', q, p, self.n, None, m0)]
        return [Case('added', lambda s, r: True, post)]

    def candidates(self, v):
        if self.variant == 'null':
            return []
        lv = self.view
        out = []
        for e in v.entry.events:
            if e[0] != 'malloc' or e[-1] is NULL:
                continue
            o = e[-1].o
            for n in v.ints():
                for lab, lo, hi in (('before', lambda w, n=n: 0, lambda w, n=n: w.phi[n]), ('after', lambda w, n=n: add(w.phi[n], 1), lambda w, n=n: lv.count),
                                    ('from', lambda w, n=n: w.phi[n], lambda w, n=n: lv.count)):
                    for cls, f in (('po', lv.obj), ('pf', lambda i: 0)):
                        out.append(Cand('entries %s %s copied (%s)' % (lab, n, cls), lambda w, o=o, lo=lo, hi=hi, cls=cls, f=f:
                                   All('copied', cls, o, 0, 8, lo(w), hi(w), lambda i: eq(w.st.rdq(cls, o, scale(i, 8)), f(i)), guard=True)))
        return out

    def on_exit(self, eng, st, code, ins):
        eng.oblige(st, eq(self.args0(eng).o, 0) if self.variant == 'list' else True, 'gives up only without a list', ins, assume=False)
        eng.oblige(st, ne(code, 0), 'gives up with a failure status', ins, assume=False)

    def args0(self, eng):
        return eng.args[0]

    def use_null(self, eng, st, args, ins):
        if eng.spec is not None:
            eng.spec.on_exit(eng, st, 1, ins)
        return []

    def use(self, eng, st, p, v, args, ins):
        sf = need_str(eng, st, args[1], ins, 'filelist_put name')
        pos = None
        for c in ('i32', 'p'):
            if eng.frame is not None:
                eng.oblige(st, eng.frame(st, Ptr(p.o, 0), LSIZE), 'write of %s allowed by the contract frame' % self.name, ins)
        q = dup(eng, st, args[1], sf, ins)
        st.wr('kind', v.files.o, 0, 0)
        for c in ('i32', 'p'):
            st.havoc(('obj', c, p.o))
        st.havoc(('obj', 'p', v.files.o))
        nf = Ptr(fresh('files'), 0)
        st.assume(eng.new_next(st))
        st.wrptr(p.o, FILES, nf)
        st.wr('i32', p.o, COUNT, add(v.count, 1))
        st.wr('i32', p.o, PTR, 0)
        # storage: the old block or a new one (either way alive again)
        st.assume(Or(eq(nf.o, v.files.o), And(lt(q.o, nf.o), lt(nf.o, st.next))))
        st.havoc(('obj', 'p', nf.o))
        st.havoc(('obj', 'kind', nf.o))
        new_list(eng, st, p, v, (q, sf))
        st.events = st.events + (('put', p, v.count, q, sf),)
        return [(st, None)]


@spec
class Free(ListFn):
    name = 'filelist_free'

    def frame(self, eng, pre, args):
        base = super().frame(eng, pre, args)
        if self.variant == 'null':
            return base
        v = self.view

        def fr(st, p, w):
            if isinstance(w, str) and w == 'free':
                i = v.idx(p.o)
                return Or(le(pre.next, p.o), eq(p.o, args[0].o), eq(p.o, v.files.o), And(le(0, i), lt(i, v.count), eq(p.o, v.obj(i))))
            return base(st, p, w)
        return fr

    def cases(self, eng, pre, args):
        if self.variant == 'null':
            return [Case('no list', lambda s, r: True, lambda s, r: [])]
        return [Case('released', lambda s, r: True, lambda s, r: [F('the list is gone', eq(s.kind(args[0].o), 0))])]

    def candidates(self, v):
        if self.variant == 'null':
            return []
        lv, pre = self.view, self.pre0
        kn = pre.mem['kind']
        out = []
        for n in v.ints():
            out.append(Cand('entries from %s on are still allocated' % n, lambda w, n=n: UFAll('alive', lv.IO.name(), lambda i:
                       Imp(And(le(w.phi[n], i), lt(i, lv.count)), eq(w.st.rdq('kind', lv.obj(i), 0), 1)), 1)))
            out.append(Cand('entries up to %s are still allocated' % n, lambda w, n=n: UFAll('alive', lv.IO.name(), lambda i:
                       Imp(And(le(0, i), lt(i, w.phi[n])), eq(w.st.rdq('kind', lv.obj(i), 0), 1)), 1)))
        for n in v.ptrs():
            out.append(Cand('entries from %s on are still allocated' % n, lambda w, n=n: UFAll('alive', lv.IO.name(), lambda i:
                       Imp(And(le(w.phi[n].f, scale(i, 8)), lt(i, lv.count)), eq(w.st.rdq('kind', lv.obj(i), 0), 1)), 1)))
            out.append(Cand('%s walks the entries' % n, lambda w, n=n: And(eq(w.phi[n].o, lv.files.o), le(0, w.phi[n].f), le(w.phi[n].f, scale(lv.count, 8)))))
        out.append(Cand('the list is still allocated', lambda w: And(eq(w.st.rdq('kind', lv.o, 0), 1), eq(w.st.rdq('kind', lv.files.o, 0), 1))))
        return out

    def begin(self, eng, st, args, fn):
        super().begin(eng, st, args, fn)
        self.pre0 = st

    def use(self, eng, st, p, v, args, ins):
        raise Unsupported('filelist_free in a caller')
