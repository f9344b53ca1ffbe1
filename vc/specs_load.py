"""Copying a table to a new size and the built-in tables (C16)."""
import os, sys
import z3
from term import *
from engine import *
from contracts import *
from specs_filter import Either, CopyOf
from specs_table import *
from specs_table import Rep, TableFn, View, find_table, new_view, ku
from loops import Cand
import build
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'replay'))

SPECS = {}


def spec(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


class Source(Clause):
    """t is a table to copy from: rows with unique codes, each with its text; no assumption on where the rows lie"""


def view_at(eng, st, t):
    f = find_table(eng, st, t)
    return f.view if f is not None and f.holds(eng, st) else new_view(eng, st, t)


class TableIs(Clause):
    """the table at t is usable and holds exactly the codes accepted by pred, with the texts of the view src"""
    def __init__(self, name, t, src, pred, limit, cnt=None, props=None):
        self.name, self.t, self.src, self.pred, self.limit, self.cnt, self.props = name, t, src, pred, limit, cnt, props

    def claims(self, v, k):
        return And(Iff(v.has(k), self.pred(k)), Imp(v.has(k), v.same_text(self.src, k)))

    def prove(self, eng, st, what):
        f = find_table(eng, st, self.t)
        if f is None or not f.holds(eng, st):
            return False
        k = fresh('code')
        g = self.claims(f.view, k)
        if self.cnt is not None:
            g = And(g, le(f.view.cnt, self.cnt))
        return eng.prove(st, And(g, eq(f.view.rlen, self.limit)), what)

    def assume(self, eng, st):
        v = view_at(eng, st, self.t)
        v.every(st, lambda k: [self.claims(v, k)])
        st.assume(eq(v.rlen, self.limit))
        if self.cnt is not None:
            st.assume(le(v.cnt, self.cnt))


class TableOk(Clause):
    """the table at t is usable, whatever it holds"""
    def __init__(self, name, t, props=None):
        self.name, self.t, self.props = name, t, props

    def prove(self, eng, st, what):
        f = find_table(eng, st, self.t)
        return f is not None and f.holds(eng, st)

    def assume(self, eng, st):
        view_at(eng, st, self.t)


@spec
class TableResize(TableFn):
    name = 'table_resize'
    props = ('C16',)
    variants = ('null', 'fits', 'any')
    allocates = True
    source = True

    def begin(self, eng, st, args, fn):
        self.n = ite(le(args[1], 0), 500, args[1])
        if self.variant == 'null':
            return
        self.rep = R = Rep(eng, st, args[0], True)
        self.view = v = R.v
        v.cnt, v.rlen = None, R.len
        st.assume(lt(R.len, 2 ** 27))
        # texts of the rows
        st.data['strhooks'] = (R.text_hook(Fact('source', R.o, v, st)),)
        # number of rows in use below j
        NZ = self.NZ = z3.Function(fresh_name('nz'), IntS, IntS)
        nz = self.nz = lambda j: atom(NZ(z(j)))
        ro = R.rows.o

        def r(args):
            # definition by recursion, and its consequence nz(j) <= nz(j+1) <= nz(length) (lemma below)
            j = fromz(args[0])
            inr = And(le(0, j), lt(j, R.len))
            st1 = [Imp(inr, And(eq(nz(add(j, 1)), add(nz(j), ite(ne(R.key(j), 0), 1, 0))), le(nz(add(j, 1)), nz(R.len)), le(0, nz(j))))] if eng._cur_gen == 0 else []
            return st1
        st.rules([(NZ.name(), r)])
        st.assume(eq(nz(0), 0), le(nz(0), nz(R.len)))
        if self.variant == 'fits':
            st.assume(le(nz(R.len), self.n))
        d = v.dflt
        self.dlen, self.dval = fresh('dlen'), fresh('dval')
        # default: none, or a string (both explored)

    def lemma(self, eng):
        """nz(j) <= nz(length): downward induction on j"""
        A = z3.Function(fresh_name('nz'), IntS, IntS)
        nz = lambda i: atom(A(z(i)))
        K = z3.Function(fresh_name('keyz'), IntS, IntS)
        s = eng.new_state()
        j, n = fresh('j'), fresh('n')
        s.assume(And(le(0, j), lt(j, n)), eq(nz(add(j, 1)), add(nz(j), ite(ne(atom(K(z(j))), 0), 1, 0))))
        eng.oblige(s, le(nz(n), nz(n)), 'lemma: the count of rows in use grows (base)', None, assume=False)
        eng.oblige(s, Imp(le(nz(add(j, 1)), nz(n)), le(nz(j), nz(n))), 'lemma: the count of rows in use grows (step)', None, assume=False)

    def finish(self, eng, rets):
        super().finish(eng, rets)

    def verify_variant(self, eng, fn, variant):
        if variant != 'fits' and variant != 'any':
            return super().verify_variant(eng, fn, variant)
        tot = 0
        for dflt in ('none', 'some'):
            self.dcase = dflt
            tot += super().verify_variant(eng, fn, variant)
        eng.record = True
        self.lemma(eng)
        return tot

    def vary(self, eng, st, args, variant):
        return [NULL] + args[1:] if variant == 'null' else args

    def requires(self, eng, st, args):
        if self.variant == 'null':
            return []
        d = st.rdptr(args[0].o, add(args[0].f, DFLT))
        if self.dcase == 'none':
            return [F('no default', eq(d.o, 0))]
        self.dsf = None
        return [F('a default', ne(d.o, 0)), Str('default is a string', d, fresh('dlen'))]

    def targets(self, v):
        """tables created by this function"""
        return [f.view.o for f in v.entry.data.get('facts', ()) if f.kind == 'table']

    def candidates(self, v):
        if self.variant == 'null':
            return []
        R, src = self.rep, self.view
        out = []
        for o in {key(o): o for o in self.targets(v)}.values():
            t = Ptr(o, 0)
            for n, x in row_index(v, R.rows.o):
                out.append(Cand('the target holds the rows before %s' % n, lambda w, x=x, t=t: TableIs('copied', t, src, lambda k: And(src.has(k), lt(R.pos(k), x(w))), self.n,
                                cnt=self.nz(x(w)))))
                out.append(Cand('the target holds the rows from %s on' % n, lambda w, x=x, t=t: TableIs('copied', t, src, lambda k: And(src.has(k), le(x(w), R.pos(k))), self.n,
                                cnt=sub(self.nz(R.len), self.nz(x(w))))))
            out.append(Cand('the target is usable', lambda w, t=t: TableOk('usable', t)))
        out += at_row(v, R.rows.o, lambda w: R.len)
        return out

    def cases(self, eng, pre, args):
        if eng.spec is not self:
            return []
        n = self.n

        def base(s, r):
            return [Fresh('new table', r, pre)]

        def post(s, r):
            out = base(s, r)
            if self.variant == 'null':
                out.append(TableIs('an empty table', r, new_nothing(s), lambda k: False, n))
                return out
            if self.variant == 'fits':
                out.append(TableIs('every code has the same replacement as before', r, self.view, lambda k: self.view.has(k), n))
            else:
                out.append(TableOk('the result is usable', r))
            d, d1 = self.view.dflt, s.rdptr(r.o, DFLT)
            if self.dcase == 'none':
                out.append(F('no default', eq(d1.o, 0)))
            else:
                sf = eng.find_str(pre, d)
                out.append(Fresh('the default is a private copy', d1, pre))
                out.append(CopyOf('the default is the same text', d1, d, sf.n, None, pre.mem['i8']))
            return out
        return [Case('copied', lambda s, r: ne(r.o, 0), post)]

    # callers: only constant tables are ever passed
    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        tb = args[0]
        if not (isinstance(tb.o, int) and tb.o < 0 and tb.o in eng.constinit):
            raise Unsupported('table_resize of a table that is not constant')
        m = const_table(eng, tb)
        n = args[1] if isinstance(args[1], int) else None
        eng.oblige(st, z3.BoolVal(m is not None and m.ok), 'the built-in table is well formed: unique codes, each with a text no longer than the recorded maximum', ins, assume=False)
        if m is None:
            raise Unsupported('constant table')
        eng.oblige(st, z3.BoolVal(n is not None and len(m.rows) <= (500 if n <= 0 else n)), 'the built-in table fits the new size', ins, assume=False)
        o = st.alloc(TSIZE).o
        st.assume(eng.new_next(st))
        st.assume(eq(st.kind(o), 1), eq(st.size(o), TSIZE))
        d = NULL
        st.havoc(('obj', 'i32', o))
        st.havoc(('obj', 'p', o))
        if m.dflt is not None:
            d = new_ext_str(eng, st, 'dflt', kind=1)
            st.wrptr(o, DFLT, d)
        else:
            st.wrptr(o, DFLT, NULL)
        v = new_view(eng, st, Ptr(o, 0))
        v.const = m
        v.every(st, lambda k: const_claims(eng, v, m, k))
        return [(st, Ptr(o, 0))]


def new_nothing(s):
    return View()


class ConstTable:
    pass


def const_table(eng, p):
    """rows of a constant table, read off its initialiser"""
    m = ConstTable()
    c = eng.const_cells(p.o)
    f = p.f
    n = c['i32'].get(f + LENGTH, 0)
    ro, rf = c['po'].get(f + ROWS, 0), c['pf'].get(f + ROWS, 0)
    if ro >= 0 or ro not in eng.constinit and eng.M.globals.get(eng.globs.get(ro)) is None:
        return None
    g = eng.M.globals[eng.globs[ro]]
    if g['init'] is None or not (g['const'] or eng_const_rows(eng, eng.globs[ro])):
        return None
    eng.constinit.setdefault(ro, None)
    rc = eng.const_cells(ro)
    m.rows, m.ok = {}, eng.M.size(g['type']) >= rf + 16 * n
    for i in range(n):
        k = rc['i32'].get(rf + 16 * i, 0) % 2 ** 32
        do, df = rc['po'].get(rf + 16 * i + 8, 0), rc['pf'].get(rf + 16 * i + 8, 0)
        if k == 0 or do == 0:
            m.ok = m.ok and (k == 0) == (do == 0)
            continue
        s = eng.const_cstr(do, df)
        if s is None:
            return None
        if k in m.rows or k >= 2 ** 31:
            m.ok = False
        m.rows[k] = s
    do, df = c['po'].get(f + DFLT, 0), c['pf'].get(f + DFLT, 0)
    m.dflt = eng.const_cstr(do, df) if do else None
    return m


def eng_const_rows(eng, name):
    """rows referenced from table initialisers only (never stored to: the code has no other mention of them)"""
    import re
    return not re.search(r'@%s\b(?![.\w])' % re.escape(name), eng.M.body_text)


def const_claims(eng, v, m, k):
    if isinstance(k, int):
        if k in m.rows:
            return [v.has(k), eq(v.len(k), len(m.rows[k])), eq(v.val(k), eng.const_val(m.rows[k]))]
        return [Not(v.has(k))]
    return [Iff(v.has(k), Or(*[eq(k, c) for c in m.rows]))]


def tbl(name):
    import search
    return search.tbl_source(name)


# control characters, blank, shell metacharacters, path separator: not to appear in a name cleaned by the default sequence
UNWANTED = set(range(1, 33)) | {127} | set(b'!"$&\'()*/;<>?[\\]`{|}')


def safe_clauses(m):
    """what the safe filter does with this table (its contract: the row, else the default, else the byte; codes above 127 are
    never looked up), stated for every byte a name can have: 255 facts about the rows that are really compiled in"""
    piece = lambda b: m.rows[b] if b < 128 and b in m.rows else m.dflt if m.dflt is not None else bytes([b])
    bad = sorted({c for b in range(1, 256) for c in piece(b) if c in UNWANTED})
    unstable = sorted({c for b in range(1, 256) for c in piece(b) if piece(c) != bytes([c])})
    seps = [c for c in b'-_.' if piece(c) != bytes([c])]
    C = lambda n, l: F(n, z3.BoolVal(not l), props=['C07'])
    return [C('the safe table leaves no unwanted character%s' % ''.join(' 0x%x' % c for c in bad[:5]), bad),
            C('the safe table keeps whatever it has put out%s' % ''.join(' 0x%x' % c for c in unstable[:5]), unstable),
            C('the safe table keeps the separators', seps)]


class LoadBuiltin(FnSpec):
    props = ('C16',)
    tbl = None

    def params(self, eng, st, fn):
        return []

    def cases(self, eng, pre, args):
        if eng.spec is not self:
            return [Case('loaded', lambda s, r: True, lambda s, r: [Fresh('new table', r, pre)], make=fresh_ptr)]

        def post(s, r):
            f = find_table(eng, s, r) if r is not NULL else None
            m = getattr(f.view, 'const', None) if f is not None else None
            want = tbl(self.tbl)
            out = [F('the result is the copied built-in table', z3.BoolVal(m is not None and f.holds(eng, s)))]
            if m is not None:
                diff = sorted(k for k in set(m.rows) | set(want.m) if m.rows.get(k) != want.m.get(k))
                lab = ''.join(' 0x%x is %r' % (k, m.rows.get(k)) for k in diff[:3])
                out.append(F('exactly the rows of table/%s.tbl' % self.tbl, z3.BoolVal(not diff), props=['C16 sources']))
                out.append(F('the default of table/%s.tbl' % self.tbl, z3.BoolVal(m.dflt == want.default), props=['C16 sources']))
                if self.tbl == 'safe':
                    out += safe_clauses(m)
            return out
        return [Case('loaded', lambda s, r: ne(r.o, 0), post)]

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        o = st.alloc(TSIZE).o
        st.assume(eng.new_next(st))
        st.assume(eq(st.kind(o), 1), eq(st.size(o), TSIZE))
        st.havoc(('obj', 'i32', o))
        st.havoc(('obj', 'p', o))
        v = new_view(eng, st, Ptr(o, 0))
        v.builtin = self.tbl
        st.events = st.events + (('table', Ptr(o, 0), 'builtin', self.tbl),)
        return [(st, Ptr(o, 0))]


for _n in ('safe', 'iso8859_1', 'unicode', 'cp1252'):
    _c = type('Load_' + _n, (LoadBuiltin,), dict(name='load_builtin_%s_table' % _n, tbl=_n, props=('C16', 'C07') if _n == 'safe' else ('C16',)))
    spec(_c)
