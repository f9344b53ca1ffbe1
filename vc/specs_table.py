"""Translation tables: the abstract view (a map from code to replacement), C14, C16."""
import z3
import layout
from term import *
import term as T
from engine import *
from contracts import *
from specs_filter import *
from specs_filter import Filter, Trans, Text, Simple
from loops import Cand

SPECS = {}


def spec(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


LENGTH, USEDF, MDL, DFLT, ROWS, HITS, MISSES, OVERW, SEEKS, USEHASH, BUILTIN, MAXKEY = layout.one('table_t')[:-1]
TSIZE = layout.one('table_t')[-1]
COUNTERS = (HITS, MISSES, OVERW, SEEKS)


TABLE, TEXT, TROWS = 11, 12, 13        # roles: a table, the text of a row, the rows


class View:
    """what a table means: has(code), and for listed codes the replacement string"""
    immune = ('counters',)

    def __init__(self, name='tv'):
        n = fresh_name(name)
        self.HAS, self.VO, self.VF, self.VL, self.VV = [z3.Function(fresh_name(x), IntS, IntS) for x in ('has', 'vo', 'vf', 'vl', 'vv')]
        self.dflt = None       # Ptr
        self.dlen = None
        self.mdl = None
        self.cnt = fresh('rowsinuse')
        self.mid = fresh('meaning')        # a number for this map
        self.rlen = None
        self.rows = None

    def has(self, k):
        if isinstance(k, int) and k == 0:
            return False
        return eq(atom(self.HAS(z(k))), 1)

    def ptr(self, k):
        return Ptr(atom(self.VO(z(k))), atom(self.VF(z(k))))

    def len(self, k):
        return atom(self.VL(z(k)))

    def val(self, k):
        return atom(self.VV(z(k)))

    def full(self):
        return eq(self.cnt, self.rlen)

    def install(self, st, o):
        """the view of the table at o in st"""
        eng = st.eng
        self.o = o
        self.mdl, self.rlen = [st.rd('i32', o, k) for k in (MDL, LENGTH)]
        self.dflt = st.rdptr(o, DFLT)
        self.rows = st.rdptr(o, ROWS)
        st.assume(And(le(0, self.mdl), lt(self.mdl, STRMAX)), And(le(0, self.cnt), le(self.cnt, self.rlen), le(1, self.rlen)), lt(self.rows.o, st.next),
                  eq(role(o), TABLE), eq(role(self.rows.o), TROWS), ne(self.rows.o, o))
        N = st.next
        eng.upper_of[self.VO.name()] = N

        def r(args):
            k = fromz(args[0])
            h = self.has(k)
            p = self.ptr(k)
            # (the last conjunct: what an unlisted code denotes is irrelevant)
            return [And(Imp(h, And(le(1, k), lt(k, 2 ** 31), le(0, self.len(k)), le(self.len(k), self.mdl), ne(p.o, 0), le(0, p.f), eq(role(p.o), TEXT))), lt(p.o, N))]
        st.rules([(self.HAS.name(), r), (self.VO.name(), r), (self.VL.name(), r)])
        Fact('table', o, self, st, counters(o, self)).note(st)

    def every(self, st, f):
        """rule: f(k) for every code the view is asked about"""
        def r(args):
            return [x for x in f(fromz(args[0])) if x is not True]
        st.rules([(self.HAS.name(), r), (self.VO.name(), r), (self.VL.name(), r), (self.VV.name(), r)])

    def same_text(self, w, k):
        return And(eq(self.len(k), w.len(k)), eq(self.val(k), w.val(k)))


def new_view(eng, st, t):
    v = View()
    v.install(st, t.o)
    return v


def view_after_put(eng, st, t, old, k, q, sf):
    """the map with code k set to the copy q of the text sf"""
    v = View()
    v.cnt = add(old.cnt, ite(old.has(k), 0, 1))
    v.install(st, t.o)
    st.assume(le(old.mdl, v.mdl), le(sf.n, v.mdl))

    def upd(c):
        e = eq(c, k)
        return [Imp(e, And(v.has(c), eq(v.ptr(c).o, q.o), eq(v.ptr(c).f, 0), eq(v.len(c), sf.n), eq(v.val(c), sf.val))),
                Imp(Not(e), And(Iff(v.has(c), old.has(c)), eq(v.ptr(c).o, old.ptr(c).o), eq(v.ptr(c).f, old.ptr(c).f), v.same_text(old, c)))]
    v.every(st, upd)
    return v


def counters(o, v):
    """cells the meaning of a table does not depend on: the statistics, the default (read where it is used), and, while
    no row is in use, the search mode"""
    def fc(eng, st, cls, o2, lo, hi):
        if cls in ('i16', 'i64'):
            return True
        if cls == 'i8':
            return not_role(eng, st, o2, TEXT)
        if eng.same_obj(st, o, o2) is True:
            if cls == 'i32' and isinstance(lo, int):
                return lo in COUNTERS or (lo == USEHASH and eng.holds(st, eq(v.cnt, 0)))
            return cls in ('po', 'pf') and isinstance(lo, int) and lo == DFLT
        if eng.same_obj(st, o, o2) is not False or eng.same_obj(st, v.rows.o, o2) is not False:
            return not_role(eng, st, o2, TABLE, TROWS)
        return cls != 'kind' or not_role(eng, st, o2, TEXT)
    return fc


class TableInv(Clause):
    """t points to a usable table.  The meaning is given by the view attached to it."""
    def __init__(self, name, t, props=None, dflt=None, nullok=False):
        self.name, self.t, self.props, self.want, self.nullok = name, t, props, dflt, nullok

    def lookup(self, eng, st):
        return lookup_table(eng, st, self.t, self.nullok)

    def assume(self, eng, st):
        f = self.lookup(eng, st)
        if f is not None and f.holds(eng, st) or eng.holds(st, eq(self.t.o, 0)):
            return
        o = self.t.o
        v = View()
        st.assume(eq(self.t.f, 0), ne(o, 0), ne(st.kind(o), 0), eq(st.size(o), TSIZE))
        v.install(st, o)
        if self.want == 'none':
            st.assume(eq(v.dflt.o, 0))
            v.nodflt = True
        elif self.want == 'some':
            st.assume(ne(v.dflt.o, 0))
            v.dlen = fresh('dlen')
            eng.assume_str(st, v.dflt, v.dlen)

    def prove(self, eng, st, what):
        f = self.lookup(eng, st)
        return f is not None and f.holds(eng, st) and eng.holds(st, eq(self.t.f, 0))


class DefaultOk(Clause):
    """t is NULL, or its default is NULL or a string"""
    def __init__(self, name, t, props=None):
        self.name, self.t, self.props = name, t, props

    def assume(self, eng, st):
        pass

    def prove(self, eng, st, what):
        if eng.holds(st, eq(self.t.o, 0)):
            return True
        d = st.rdptr(self.t.o, DFLT)
        return eng.holds(st, Imp(ne(self.t.o, 0), eq(d.o, 0))) or eng.find_str(st, d) is not None


def lookup_table(eng, st, t, nullok):
    f = find_table(eng, st, t)
    if f is None and nullok:
        for h in st.data.get('tablehooks', ()):
            f = h(eng, st, t)
            if f is not None:
                break
    return f


def table_meaning(eng, st, t):
    """a number for what a table does to a name: its map and its default"""
    if eng.holds(st, eq(t.o, 0)):
        return 0
    f = lookup_table(eng, st, t, True)
    d = st.rdptr(t.o, DFLT)
    if eng.holds(st, eq(d.o, 0)):
        dv = -1
    else:
        sf = eng.find_str(st, d)
        dv = ite(eq(d.o, 0), -1, sf.val if sf is not None else fresh('sv'))
    m = atom(z3.Function('meaning_of', IntS, IntS, IntS)(z(f.view.mid if f is not None else fresh('meaning')), z(dv)))
    return ite(eq(t.o, 0), 0, m)


def find_table(eng, st, t):
    return find_fact(eng, st, 'table', t.o)


def ku(x):
    """unsigned value of a 32-bit cell"""
    return x % 2 ** 32 if isinstance(x, int) else ite(lt(x, 0), add(x, 2 ** 32), x)


class Rep:
    """representation of a table: an array of (key, data) rows with unique non-zero keys, searched at the hash slot and
    then linearly.  Z is the first empty row (or the length).  POS maps a stored key to its row."""
    def __init__(self, eng, st, t, source=False):
        self.eng, self.t = eng, t
        o = self.o = t.o
        self.POS = z3.Function(fresh_name('pos'), IntS, IntS)
        self.OWN = z3.Function(fresh_name('own'), IntS, IntS)
        self.v = v = View()
        v.o = o
        self.st0 = st
        st.assume(eq(t.f, 0), ne(o, 0), eq(st.kind(o), 1) if not source else ne(st.kind(o), 0), le(TSIZE, st.size(o)))
        self.len, v.mdl, self.hash = [st.rd('i32', o, k) for k in (LENGTH, MDL, USEHASH)]
        self.rows = st.rdptr(o, ROWS)
        v.dflt = st.rdptr(o, DFLT)
        ro = self.rows.o
        st.assume(ne(ro, 0), ne(ro, o), eq(self.rows.f, 0), eq(st.kind(ro), 1) if not source else ne(st.kind(ro), 0), le(1, self.len), le(scale(self.len, 16), st.size(ro)),
                  lt(ro, st.next), And(le(0, v.mdl), lt(v.mdl, STRMAX)))
        self.Z = Z = fresh('firstempty')
        self.m = {c: st.mem[c] for c in CLS}
        st.assume(And(le(0, Z), le(Z, self.len)), Imp(lt(Z, self.len), eq(self.key(Z), 0)))
        top(eng, All('rows', 'i32', ro, 0, 16, 0, self.len, lambda i: And(Imp(lt(i, Z), ne(self.key(i), 0)), self.row_ok(i, source)), mems=[self.m['i32']])).assume(eng, st)
        N = st.next
        eng.upper_of[v.VO.name()] = N
        for i in (0, 1):
            pass

        def on_has(args):
            k = fromz(args[0])
            p = self.pos(k)
            return [Iff(v.has(k), And(ne(k, 0), le(0, p), lt(p, self.len), eq(self.key(p), k))),
                    Imp(v.has(k), self.placed(k, p, self.Z, self.key)) if not source else True]

        def on_vo(args):
            k = fromz(args[0])
            p = self.pos(k)
            x, f = v.ptr(k)
            return [Imp(v.has(k), And(eq(self.data(p).o, x), eq(self.data(p).f, f), ne(x, 0), lt(x, N), le(0, v.len(k)), le(v.len(k), v.mdl), le(0, f),
                                      eq(f, 0) if not source else True, le(1, k), lt(k, 2 ** 32 if not source else 2 ** 31),
                                      lt(add(f, v.len(k)), self.rdq('size', x, 0)), ne(self.rdq('kind', x, 0), 0),
                                      And(ne(x, o), ne(x, ro), eq(self.rdq('kind', x, 0), 1), eq(atom(self.OWN(z(x))), p)) if not source else True))]
        st.rules([(v.HAS.name(), on_has), (v.VO.name(), on_vo)])

    def text_hook(self, snap):
        """strings found through the data column (source tables)"""
        def h(eng, st, p):
            x, c = eng.head(p.o)
            if x is None or c or x.num_args() != 2 or not x.decl().name().startswith('po!'):
                return None
            i = idiv(sub(fromz(x.arg(1)), 8), 16)
            k = self.key(i)
            d = self.data(i)
            if not eng.holds(st, And(le(0, i), lt(i, self.len), ne(k, 0), eq(p.o, d.o), eq(p.f, d.f))) or not snap.holds(eng, st):
                return None
            st.touch(self.v.ptr(k).o)
            if not eng.holds(st, And(self.v.has(k), eq(p.o, self.v.ptr(k).o), eq(p.f, self.v.ptr(k).f))):
                return None
            return eng.assume_str(st, p, self.v.len(k), self.v.val(k))
        return h

    def rdq(self, c, o, i):
        return read(self.m[c], o, i, self.eng, None)

    def key(self, i):
        return ku(self.rdq('i32', self.rows.o, scale(i, 16)))

    def data(self, i):
        j = add(scale(i, 16), 8)
        return Ptr(self.rdq('po', self.rows.o, j), self.rdq('pf', self.rows.o, j))

    def pos(self, k):
        return atom(self.POS(z(k)))

    def slot(self, k):
        f = z3.Function('urem', IntS, IntS, IntS)
        return atom(f(z(k), z(self.len)))

    def placed(self, k, i, Z, key_):
        """row i is where a search or a later store finds k"""
        h = self.slot(k)
        return Or(And(ne(self.hash, 0), eq(h, i)), And(lt(i, Z), Or(eq(self.hash, 0), ne(key_(h), 0))))

    def row_ok(self, i, source):
        k = self.key(i)
        g = And(eq(self.pos(k), i), self.v.has(k))
        if source:
            # only what the loader relies on: keys are unique, and every listed key has its text
            p = self.v.ptr(k)
            return Imp(ne(k, 0), And(g, eq(self.data(i).o, p.o), eq(self.data(i).f, p.f)))
        return Imp(ne(k, 0), And(g, eq(self.data(i).o, self.v.ptr(k).o), eq(self.data(i).f, 0)))


def top(eng, a):
    """instances only for what the code or a goal itself mentions"""
    inst = a.inst
    a.inst = lambda k: inst(k) if eng._cur_gen == 0 else True
    return a


def urem_facts(st, k, n):
    """range of the remainder"""
    def r(args):
        a, b = fromz(args[0]), fromz(args[1])
        x = atom(z3.Function('urem', IntS, IntS, IntS)(z(a), z(b)))
        return [Imp(lt(0, b), And(le(0, x), lt(x, b))), Imp(le(0, a), le(x, a))]
    st.rules([('urem', r)])


def row_index(v, ro):
    """loop variables that count the rows at ro or walk over them: (name, row as a term)"""
    return [(n, lambda w, n=n: w.phi[n]) for n in v.ints()] + \
        [(n, lambda w, n=n: idiv(w.phi[n].f, 16)) for n in v.ptrs() if v.eng.same_obj(v.st, v.init[n].o, ro) is True]


def at_row(v, ro, length):
    return [Cand('%s at a row' % n, lambda w, n=n: And(eq(imod(w.phi[n].f, 16), 0), le(0, w.phi[n].f), le(w.phi[n].f, scale(length(w), 16))))
            for n in v.ptrs() if v.eng.same_obj(v.st, v.init[n].o, ro) is True]


class TableFn(FnSpec):
    props = ('C14',)
    variants = ('null', 'table')
    allocates = False
    source = False
    hi = 2 ** 32

    def vary(self, eng, st, args, variant):
        return [NULL] + args[1:] if variant == 'null' else args

    def begin(self, eng, st, args, fn):
        urem_facts(st, 0, 0)
        if self.variant == 'null':
            return
        self.rep = Rep(eng, st, args[0], self.source)
        self.view = self.rep.v

    def scan_cands(self, v, k):
        """linear search: rows visited so far do not match"""
        if self.variant == 'null':
            return []
        R = self.rep
        out = []
        ro = R.rows.o
        for n, x in row_index(v, ro):
            for lab, lo, hi in (('before', lambda w: 0, x), ('from', x, lambda w: R.len), ('after', lambda w, x=x: add(x(w), 1), lambda w: R.len)):
                for what, c in (('not the code', lambda i: ne(R.key(i), k)), ('in use', lambda i: ne(R.key(i), 0))):
                    out.append(Cand('rows %s %s %s' % (lab, n, what), lambda w, lo=lo, hi=hi, c=c: All('scan', 'i32', ro, 0, 16, lo(w), hi(w), c, mems=[R.m['i32']])))
        out += at_row(v, ro, lambda w: R.len)
        # a search result: -1 or a matching row
        for n in v.ints():
            out.append(Cand('%s is -1 or a row of the code' % n, lambda w, n=n: Or(eq(w.phi[n], -1), And(le(0, w.phi[n]), lt(w.phi[n], R.len), eq(R.key(w.phi[n]), k)))))
        return out


@spec
class TableGet(TableFn):
    name = 'table_get'

    def requires(self, eng, st, args):
        if eng.spec is self:
            return []
        return [Either('table is usable', args[0], TableInv('table is usable', args[0]))]

    def modifies(self, eng, st, args):
        return [('cell', 'i32', args[0].o, k) for k in (HITS, MISSES, SEEKS)]

    def candidates(self, v):
        return self.scan_cands(v, self.k) if self.variant == 'table' else []

    def begin(self, eng, st, args, fn):
        super().begin(eng, st, args, fn)
        self.k = eng.uns(st, args[1], 32)
        if self.variant == 'table':
            st.touch(self.view.ptr(self.k).o)

    def cases(self, eng, pre, args):
        if self.variant == 'null':
            return [Case('no table', lambda s, r: True, lambda s, r: [F('finds nothing', eq(r.o, 0))])]
        v, k = self.view, self.k
        p = v.ptr(k)
        return [Case('listed', lambda s, r: v.has(k), lambda s, r: [F('the stored replacement', And(eq(r.o, p.o), eq(r.f, p.f)))]),
                Case('not listed', lambda s, r: Not(v.has(k)), lambda s, r: [F('finds nothing', eq(r.o, 0))])]

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        tb, k = args[0], eng.uns(st, args[1], 32)
        out = []
        if eng.holds(st, eq(tb.o, 0)):
            return [(st, NULL)]
        c = TableInv('table is usable', tb)
        eng.oblige(st, c, 'table_get: requires the table to be unchanged since it was known usable', ins, assume=False)
        f = find_table(eng, st, tb)
        if f is None:
            c.assume(eng, st)
            f = find_table(eng, st, tb)
        v = f.view
        for d in self.modifies(eng, st, args):
            if eng.frame is not None:
                eng.oblige(st, eng.frame(st, Ptr(d[2], d[3]), 4), 'write of table_get allowed by the contract frame', ins)
            st.havoc(d)
        s1, s2 = fork(st, v.has(k), Not(v.has(k)))
        if s1 is not None:
            p = v.ptr(k)
            eng.assume_str(s1, p, v.len(k), v.val(k))
            out.append((s1, p))
        if s2 is not None:
            out.append((s2, NULL))
        return out


@spec
class TablePut(TableFn):
    name = 'table_put'
    allocates = True

    def requires(self, eng, st, args):
        self.n = fresh('n')
        return [Str('replacement is a string', args[2], self.n)]

    def begin(self, eng, st, args, fn):
        super().begin(eng, st, args, fn)
        self.k = eng.uns(st, args[1], 32)

    def candidates(self, v):
        return self.scan_cands(v, self.k) if self.variant == 'table' else []

    def modifies(self, eng, st, args):
        if self.variant == 'null':
            return []
        R = self.rep
        return [('range', c, R.o, lo, lo + 4) for c in ('i32',) for lo in (USEDF, MDL, HITS, MISSES, OVERW, SEEKS, MAXKEY)] + \
               [('range', c, R.rows.o, 0, scale(R.len, 16)) for c in ('i32', 'p')]

    def cases(self, eng, pre, args):
        if self.variant == 'null':
            return [Case('no table', lambda s, r: True, lambda s, r: [F('refused', eq(r, -1))])]
        R, v, k = self.rep, self.view, self.k
        full = eq(R.Z, R.len)
        refused = Or(eq(k, 0), And(Not(v.has(k)), full))
        o, ro = R.o, R.rows.o
        m0 = pre.mem['i8']

        def key1(s, i):
            return ku(s.rdq('i32', ro, scale(i, 16)))

        def data1(s, i):
            return s.rdptrq(ro, add(scale(i, 16), 8))

        def no(s, r):
            i = fresh('i')
            inr = And(le(0, i), lt(i, R.len))
            return [F('refused', eq(r, -1)),
                    F('no row changes', Imp(inr, And(eq(key1(s, i), R.key(i)), eq(data1(s, i).o, R.data(i).o), eq(data1(s, i).f, R.data(i).f)))),
                    F('the recorded maximum stays', eq(s.rd('i32', o, MDL), v.mdl))]

        def yes(s, r):
            i, j = fresh('i'), fresh('j')
            inr = lambda i: And(le(0, i), lt(i, R.len))
            w = self.witness(eng, s, pre, r)
            Z1 = fresh('firstempty1')      # (exists)
            s.assume(And(le(0, Z1), le(Z1, R.len)), Imp(lt(Z1, R.len), eq(key1(s, Z1), 0)))
            All('rows', 'i32', ro, 0, 16, 0, Z1, lambda i: ne(key1(s, i), 0), mems=[s.mem['i32'], R.m['i32']]).assume(eng, s)
            q = data1(s, w)
            s.touch(v.ptr(R.key(i)).o)
            s.touch(v.ptr(R.key(w)).o)
            s.touch(R.key(Z1))
            s.touch(R.key(R.Z))
            mdl1 = s.rd('i32', o, MDL)
            return [F('accepted', le(0, r)),
                    F('the code has a row', And(inr(w), eq(key1(s, w), k))),
                    F('no code has two rows', Imp(And(inr(i), inr(j), ne(key1(s, i), 0), eq(key1(s, i), key1(s, j))), eq(i, j))),
                    F('every other code keeps its row and text', Imp(And(inr(i), ne(R.key(i), 0), ne(R.key(i), k)),
                      And(eq(key1(s, i), R.key(i)), eq(data1(s, i).o, R.data(i).o), eq(data1(s, i).f, R.data(i).f)))),
                    F('no other code appears', Imp(And(inr(i), ne(key1(s, i), 0), ne(key1(s, i), k)), eq(R.key(i), key1(s, i)))),
                    Fresh('the text is a private block', q, pre), F('with room for the text', lt(self.n, s.size(q.o))),
                    CopyOf('the text is a copy', q, args[2], self.n, None, m0),
                    F('the recorded maximum covers the text', And(le(v.mdl, mdl1), le(self.n, mdl1), lt(mdl1, STRMAX))),
                    F('later searches find every row', Imp(And(inr(i), ne(key1(s, i), 0)), R.placed(key1(s, i), i, Z1, lambda h: key1(s, h)))),
                    Card('filling one row adds one to their number', self, s, w)]
        return [Case('refused', lambda s, r: refused, no), Case('stored', lambda s, r: Not(refused), yes)]

    def witness(self, eng, s, pre, r):
        """the row used: the index of a store to the key column, else the result"""
        n = s.mem['i32']
        while n is not pre.mem['i32'] and not isinstance(n, Base):
            if isinstance(n, Store) and eng.same_obj(s, n.o, self.rep.rows.o) is True:
                return idiv(n.i, 16)
            n = n.prev
        return r

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        tb, k = args[0], eng.uns(st, args[1], 32)
        sf = need_str(eng, st, args[2], ins, 'table_put replacement')
        if eng.holds(st, eq(tb.o, 0)):
            return [(st, -1)]
        c = TableInv('table is usable', tb)
        eng.oblige(st, c, 'table_put: requires a usable table', ins, assume=False)
        f = find_table(eng, st, tb)
        if f is None:
            c.assume(eng, st)
            f = find_table(eng, st, tb)
        v = f.view
        if eng.frame is not None:
            eng.oblige(st, eng.frame(st, Ptr(tb.o, 0), 'obj'), 'write of table_put allowed by the contract frame', ins)
        out = []
        full = v.full()
        refused = Or(eq(k, 0), And(Not(v.has(k)), full))
        s1, s2 = fork(st, refused, Not(refused))
        hook = getattr(eng.spec, 'on_put', None)
        if s1 is not None:
            if hook:
                hook(eng, s1, tb, k, sf, -1, ins)
            out.append((s1, -1))
        if s2 is not None:
            if hook:
                hook(eng, s2, tb, k, sf, 0, ins)
            q = dup(eng, s2, args[2], sf, ins)
            for fl in (USEDF, MDL, HITS, MISSES, OVERW, SEEKS, MAXKEY):
                s2.havoc(('cell', 'i32', tb.o, fl))
            for cls in ('i32', 'p'):
                s2.havoc(('obj', cls, v.rows.o))
            s2.assume(eng.new_next(s2))
            s2.assume(eq(role(q.o), TEXT))
            eng.oblige(s2, lt(k, 2 ** 31), 'codes stored in a table are below 2^31', ins)
            view_after_put(eng, s2, tb, v, k, q, sf)
            r = eng.fresh_val(s2, ('int', 32), 'row')
            s2.assume(le(0, r))
            s2.events = s2.events + (('table_put', tb, k, q, sf),)
            out.append((s2, r))
        return out


class Card(Clause):
    """lemma by induction on the row index: with NZ(j) the number of rows in use below j, the store adds one at most,
    namely exactly one when the row was empty; the table is full exactly when NZ(length) = length"""
    def __init__(self, name, sp, s, w, props=None):
        self.name, self.sp, self.s, self.w, self.props = name, sp, s, w, props

    def assume(self, eng, st):
        pass

    def prove(self, eng, st, what):
        R, w = self.sp.rep, self.w
        ro = R.rows.o
        key1 = lambda i: ku(st.rdq('i32', ro, scale(i, 16)))
        A, B = [z3.Function(fresh_name(x), IntS, IntS) for x in ('nz', 'nz1')]
        nz, nz1 = (lambda i: atom(A(z(i)))), (lambda i: atom(B(z(i))))
        j = fresh('j')
        one = ite(eq(R.key(w), 0), 1, 0)
        hyp = lambda i: eq(nz1(i), add(nz(i), ite(lt(w, i), one, 0)))
        defs = [eq(nz(0), 0), eq(nz1(0), 0), eq(nz(add(j, 1)), add(nz(j), ite(ne(R.key(j), 0), 1, 0))), eq(nz1(add(j, 1)), add(nz1(j), ite(ne(key1(j), 0), 1, 0)))]
        s = st.copy()
        s.assume(*defs)
        s.assume(And(le(0, j), lt(j, R.len)), And(le(0, w), lt(w, R.len)))
        ok = eng.prove(s, hyp(0), what) and eng.prove(s, Imp(hyp(j), hyp(add(j, 1))), what)
        # the number is between 0 and the length, and reaches it exactly when no row is empty
        bnd = lambda i: And(le(0, nz(i)), le(nz(i), i), Iff(eq(nz(i), i), le(i, R.Z)))
        ok = ok and eng.prove(s, bnd(0), what) and eng.prove(s, Imp(bnd(j), bnd(add(j, 1))), what)
        return ok


@spec
class TableInit(FnSpec):
    name = 'table_init'
    props = ('C14',)

    def cases(self, eng, pre, args):
        n = ite(le(args[0], 0), 500, args[0])

        def post(s, r):
            rows = s.rdptr(r.o, ROWS)
            i = fresh('i')
            inr = And(le(0, i), lt(i, n))
            d = s.rdptr(r.o, DFLT)
            return [Fresh('new table', r, pre), F('room for the record', le(TSIZE, s.size(r.o))), Fresh('new rows', rows, pre), F('rows are separate', ne(rows.o, r.o)),
                    F('the requested number of rows', And(eq(s.rd('i32', r.o, LENGTH), n), le(scale(n, 16), s.size(rows.o)))),
                    F('every row is empty', Imp(inr, eq(s.rdq('i32', rows.o, scale(i, 16)), 0))),
                    F('nothing stored yet', And(eq(s.rd('i32', r.o, MDL), 0), eq(d.o, 0), eq(s.rd('i32', r.o, BUILTIN), 0)))]
        return [Case('created', lambda s, r: ne(r.o, 0), post, make=fresh_ptr)]

    def begin(self, eng, st, args, fn):
        # the size computation is done in size_t; a table of 2^27 rows or more cannot be allocated here
        self.n0 = ite(le(args[0], 0), 500, args[0])

    def candidates(self, v):
        # the rows may be cleared one by one; they are the last block allocated, or hang off it
        out = []
        names = [e[2] for e in v.entry.events if e[0] == 'malloc' and e[2] is not NULL]
        for b, p in enumerate(names):
            for n, x in row_index(v, p.o):
                for lab, lo, hi in (('before', lambda w: 0, x), ('from', x, lambda w: self.n0), ('after', lambda w, x=x: add(x(w), 1), lambda w: self.n0)):
                    out.append(Cand('rows %s %s of block %d are empty' % (lab, n, b), lambda w, lo=lo, hi=hi, p=p: All('empty', 'i32', p.o, 0, 16, lo(w), hi(w),
                               lambda i: eq(read(w.st.mem['i32'], p.o, scale(i, 16), w.eng, None), 0), mems=[w.st.mem['i32']])))
            out += at_row(v, p.o, lambda w: self.n0)
        return out

    def apply(self, eng, st, args, ins, t):
        out = super().apply(eng, st, args, ins, t)
        n = ite(le(args[0], 0), 500, args[0])
        for s, r in out:
            v = new_view(eng, s, r)
            v.every(s, lambda k: [Not(v.has(k))])
            s.assume(eq(v.cnt, 0), eq(v.rlen, n))
            h = getattr(eng.spec, 'on_table', None)
            if h:
                h(eng, s, r)
        return out


@spec
class TableFree(TableFn):
    name = 'table_free'

    def begin(self, eng, st, args, fn):
        super().begin(eng, st, args, fn)
        if self.variant == 'null':
            return
        R = self.rep
        d = self.view.dflt
        st.assume(Or(eq(d.o, 0), And(eq(d.f, 0), eq(st.kind(d.o), 1), ne(d.o, R.o), ne(d.o, R.rows.o))))
        ro = R.rows.o
        All('default is separate', 'i32', ro, 0, 16, 0, R.len, lambda i: Imp(ne(R.key(i), 0), ne(R.data(i).o, ite(eq(d.o, 0), -1, d.o))), mems=[R.m['i32']]).assume(eng, st)

    def frame(self, eng, pre, args):
        base = super().frame(eng, pre, args)
        if self.variant == 'null':
            return base
        R, d = self.rep, self.view.dflt

        def fr(st, p, w):
            if isinstance(w, str) and w == 'free':
                i = atom(R.OWN(z(p.o)))
                return Or(le(pre.next, p.o), eq(p.o, R.o), eq(p.o, R.rows.o), eq(p.o, d.o), And(le(0, i), lt(i, R.len), ne(R.key(i), 0), eq(p.o, R.data(i).o)))
            return base(st, p, w)
        return fr

    def cases(self, eng, pre, args):
        if self.variant == 'null':
            return [Case('no table', lambda s, r: True, lambda s, r: [])]
        bi = eq(pre.rd('i32', args[0].o, BUILTIN), 1)
        return [Case('built-in tables stay', lambda s, r: bi, lambda s, r: [F('still there', eq(s.kind(args[0].o), 1))]),
                Case('released', lambda s, r: Not(bi), lambda s, r: [F('the table is gone', eq(s.kind(args[0].o), 0))])]

    def candidates(self, v):
        if self.variant == 'null':
            return []
        R, d = self.rep, self.view.dflt
        out = []
        for n, x in row_index(v, R.rows.o):
            for lab, lo, hi in (('from', x, lambda w: R.len), ('up to', lambda w: 0, x)):
                out.append(Cand('texts %s %s still allocated' % (lab, n), lambda w, lo=lo, hi=hi: All('alive', 'i32', R.rows.o, 0, 16, lo(w), hi(w), lambda i:
                           Imp(ne(R.key(i), 0), eq(w.st.rdq('kind', R.data(i).o, 0), 1)), mems=[R.m['i32']])))
        out += at_row(v, R.rows.o, lambda w: R.len)
        out.append(Cand('the table is still allocated', lambda w: And(eq(w.st.rdq('kind', R.o, 0), 1), eq(w.st.rdq('kind', R.rows.o, 0), 1))))
        out.append(Cand('the default is still allocated', lambda w: Imp(ne(d.o, 0), eq(w.st.rdq('kind', d.o, 0), 1))))
        return out

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        tb = args[0]
        if eng.holds(st, eq(tb.o, 0)):
            return [(st, None)]
        c = TableInv('table is usable', tb)
        eng.oblige(st, c, 'table_free: requires a usable table', ins, assume=False)
        if eng.frame is not None:
            eng.oblige(st, eng.frame(st, Ptr(tb.o, 0), 'free'), 'free by table_free allowed by the contract frame', ins)
        st.wr('kind', tb.o, 0, 0)
        st.events = st.events + (('table_free', tb),)
        return [(st, None)]


# ---------------------------------------------------------------- filters with a table
class TableFilter(Simple):
    variants = ('null', 'default', 'no default', 'no table')

    def vary(self, eng, st, args, variant):
        if variant == 'null':
            return [NULL] + args[1:]
        if variant == 'no table':
            return [args[0], NULL]
        return args

    def requires(self, eng, st, args):
        r = super().requires(eng, st, args)
        if eng.spec is self:
            if self.variant in ('default', 'no default'):
                r.append(TableInv('table is usable', args[1], dflt='some' if self.variant == 'default' else 'none'))
        else:
            r.append(Either('table is NULL or usable', args[1], TableInv('table is usable', args[1], nullok=True)))
            r.append(DefaultOk('the default of the table, if any, is a string', args[1]))
        return r

    def result_val(self, eng, pre, args, val):
        return clean_val(self.name, val, table_meaning(eng, pre, args[1]))

    def modifies(self, eng, st, args):
        if isinstance(args[1].o, int) and args[1].o == 0:
            return []
        return [('cell', 'i32', args[1].o, k) for k in (HITS, MISSES, SEEKS)]

    def begin(self, eng, st, args, fn):
        self.tr = None
        if self.variant in ('null', 'no table'):
            return
        self.view = find_table(eng, st, args[1]).view
        Simple.begin(self, eng, st, args, fn)
        self.pre_st = st

    def post(self, eng, pre, s, args, r):
        if self.variant == 'no table':
            return [F('never returns without a table', False)]
        return super().post(eng, pre, s, args, r)

    def piece(self, key_, listed, keep_len, keep):
        """replacement for code key_: row, else default, else keep"""
        v = self.view
        nod = self.variant == 'no default'
        m0 = self.text.m

        def plen(i):
            k = key_(i)
            e = keep_len(i) if nod else v.dlen
            return ite(And(listed(i), v.has(k)), v.len(k), e)

        def pb(i, q):
            k = key_(i)
            p = v.ptr(k)
            e = keep(i, q) if nod else read(m0, v.dflt.o, add(v.dflt.f, q), self.eng, None)
            return ite(And(listed(i), v.has(k)), read(m0, p.o, add(p.f, q), self.eng, None), e)
        return plen, pb

    def candidates(self, v):
        if not self.tr:
            return []
        out = super().candidates(v)
        # a position inside the piece of the token being replaced
        return out


@spec
class CleanSafe(TableFilter):
    name = 'clean_safe'
    prop = 'C06'
    props = ('C01', 'C06')

    def transducer(self, eng, st, args):
        self.eng = eng
        tx = self.text
        plen, pb = self.piece(lambda i: tx(i), lambda i: lt(tx(i), 128), lambda i: 1, lambda i, q: tx(i))
        return Trans(eng, tx, 0, self.n, plen, pb)


@spec
class CleanIso(TableFilter):
    name = 'clean_iso8859_1'
    prop = 'C13'
    props = ('C01', 'C13')

    def transducer(self, eng, st, args):
        self.eng = eng
        tx = self.text
        plen, pb = self.piece(lambda i: tx(i), lambda i: True, lambda i: 1, lambda i, q: tx(i))
        up = lambda i: le(128, tx(i))
        return Trans(eng, tx, 0, self.n, lambda i: ite(up(i), plen(i), 1), lambda i, q: ite(up(i), pb(i, q), tx(i)))


@spec
class CleanUtf8(TableFilter):
    name = 'clean_utf_8'
    prop = 'C12'
    props = ('C01', 'C12')

    def transducer(self, eng, st, args):
        self.eng = eng
        tx, n = self.text, self.n
        UW, UL, UC = [z3.Function(fresh_name(x), IntS, IntS) for x in ('uw', 'ul', 'uc')]
        uw = lambda i: atom(UW(z(i)))       # bytes in the token
        ul = lambda i: atom(UL(z(i)))       # announced length (-1: stray byte)
        uc = lambda i: atom(UC(z(i)))       # code point, when complete
        cont = lambda c: And(le(128, c), le(c, 191))
        comp = lambda i: eq(ul(i), uw(i))

        def defs(i):
            c = [tx(add(i, k)) for k in range(6)]
            l = ite(lt(c[0], 0x80), 1, ite(lt(c[0], 0xC0), -1, ite(lt(c[0], 0xE0), 2, ite(lt(c[0], 0xF0), 3, ite(lt(c[0], 0xF8), 4,
                ite(lt(c[0], 0xFC), 5, ite(lt(c[0], 0xFE), 6, -1)))))))
            out = [eq(ul(i), l)]
            # the broken or stray ones
            w = 6
            for k in (5, 4, 3, 2, 1):
                w = ite(Or(le(ul(i), k), Not(cont(c[k]))), k, w)
            out.append(eq(uw(i), w))
            out.append(And(le(1, uw(i)), le(uw(i), 6), le(add(i, uw(i)), n)))
            base = {1: 0, 2: 0xC0, 3: 0xE0, 4: 0xF0, 5: 0xF8, 6: 0xFC}
            for k, b in base.items():
                v = sub(c[0], b)
                for j in range(1, k):
                    v = add(scale(v, 64), sub(c[j], 128))
                out.append(Imp(And(eq(ul(i), k), eq(uw(i), k)), eq(uc(i), v)))
            return out
        v = self.view
        nod = self.variant == 'no default'
        m0 = tx.m
        NUL = b'_hidden_null_'
        isnul = lambda i: eq(uc(i), 0)
        big = lambda i: lt(0x10FFFF, uc(i))

        def plen(i):
            k = uc(i)
            return ite(Not(comp(i)), 1, ite(v.has(k), v.len(k), ite(isnul(i), len(NUL), ite(big(i), 1, uw(i) if nod else v.dlen))))

        def pb(i, q):
            k = uc(i)
            p = v.ptr(k)
            keep = tx(add(i, q)) if nod else read(m0, v.dflt.o, add(v.dflt.f, q), self.eng, None)
            return ite(Not(comp(i)), 95, ite(v.has(k), read(m0, p.o, add(p.f, q), self.eng, None), ite(isnul(i), lit_at(NUL, q), ite(big(i), 95, keep))))
        return Trans(eng, tx, 0, n, plen, pb, width=uw, defs=defs, explicit=True)
