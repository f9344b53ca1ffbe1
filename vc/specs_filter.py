"""Contracts of the cleaning functions (C01, C06, C08-C13) and of the helpers they call."""
import z3
from term import *
import term as T
from engine import *
from contracts import *
from loops import Cand
import ir

SPECS = {}


def spec(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


# ---------------------------------------------------------------- helpers
class Text:
    """bytes of the string parameter at function entry"""
    def __init__(self, eng, st, p):
        self.m, self.p, self.eng = st.mem['i8'], p, eng

    def __call__(self, i):
        return read(self.m, self.p.o, add(self.p.f, i), self.eng, None)

    def on_read(self, cb):
        """rule: cb(k) for every read of byte k of the text; in the base memory"""
        def r(args):
            o, i = fromz(args[0]), fromz(args[1])
            so = self.eng.same_obj(None, o, self.p.o)
            if so is False:
                return []
            return [Imp(so, f) for f in cb(sub(i, self.p.f))]
        return [(n, r) for n in bases(self.m)]


def in_pos(v, p):
    """loop variables that can be the read position in string p -> (label, fn(view)->position)"""
    out = []
    for n in v.ptrs():
        i = v.init[n]
        if v.eng.same_obj(v.st, i.o, p.o) is True:
            out.append((n, lambda w, n=n: sub(w.phi[n].f, p.f)))
    for n in v.ints():
        out.append((n, lambda w, n=n: w.phi[n]))
    return out


def out_objs(v, p):
    """objects that may hold the result: allocated before the loop, or pointed to by a loop variable"""
    objs = []

    def put(o):
        if not any(const_diff(o, x) == 0 for x in objs):
            objs.append(o)
    for n in v.ptrs():
        i = v.init[n]
        if not (isinstance(i.o, int) and i.o == 0) and v.eng.same_obj(v.st, i.o, p.o) is False:
            put(i.o)
    for e in v.entry.events:
        if e[0] in ('malloc', 'strdup') and e[-1] is not NULL:
            put(e[-1].o)
    return objs


def out_pos(v, o):
    out = []
    for n in v.ptrs():
        if v.eng.same_obj(v.st, v.init[n].o, o) is True:
            out.append((n, lambda w, n=n: w.phi[n].f))
    for n in v.ints():
        out.append((n, lambda w, n=n: w.phi[n]))
    return out


class Trans:
    """Output described piece by piece.  The input is read in tokens: a token at index i (lo<=i<hi) is width(i)
    bytes long and emits plen(i) bytes pb(i,0..) starting at output position olen(i).  olen, OS, reach and the state
    components are new function symbols defined by recursion along the tokens (a conservative definition)."""
    def __init__(self, eng, text, lo, hi, plen, pb, width=None, ident=False, nonzero=True, states=(),
                 pot=None, cons=None, total=None, defs=None, explicit=False):
        self.eng, self.text, self.lo, self.hi, self.plen_, self.pb = eng, text, lo, hi, plen, pb
        self.width = width
        self.explicit = explicit     # definitions only where a loop variable is known to stand at a token
        self.defs = defs
        self.pot = pot or (lambda i: 0)
        self.cons = cons or self.w
        self.total = total if total is not None else sub(hi, lo)
        self.nonzero, self.ident = nonzero, ident
        self.OL = z3.Function(fresh_name('olen'), IntS, IntS)
        self.OSf = z3.Function(fresh_name('OS'), IntS, IntS)
        self.RE = z3.Function(fresh_name('reach'), IntS, IntS)
        self.states = [(nm, z3.Function(fresh_name('st_' + nm), IntS, IntS), init, nxt) for nm, init, nxt in states]
        self.marksrc = fresh_name('mark')
        self.MARK = z3.Function(self.marksrc, IntS, IntS)

    def w(self, i):
        return 1 if self.width is None else self.width(i)

    def plen(self, i):
        return self.plen_(i)

    def state(self, nm, i):
        for n, f, init, nxt in self.states:
            if n == nm:
                return atom(f(z(i)))

    def olen(self, i):
        if self.ident:
            return i
        return atom(self.OL(z(i)))

    def reach(self, i):
        if self.width is None:
            return And(le(self.lo, i), le(i, self.hi))
        return And(le(self.lo, i), le(i, self.hi), eq(atom(self.RE(z(i))), 1))

    def OS(self, j):
        return atom(self.OSf(z(j)))

    def step(self, i):
        """definition at input index i"""
        inr = And(self.reach(i), lt(i, self.hi))
        nx = add(i, self.w(i))
        a, b = self.olen(i), self.olen(nx)
        pl = self.plen(i)
        out = [Imp(inr, And(le(0, a), eq(b, add(a, pl)), le(b, self.olen(self.hi)), self.reach(nx)))]
        for nm, f, init, nxt in self.states:
            out.append(Imp(inr, eq(atom(f(z(nx))), nxt(i))))
        if self.defs:
            out += [Imp(inr, d) for d in self.defs(i)]
        return out

    def at(self, i, j):
        """byte j of the output, if it belongs to the piece of input i"""
        a = self.olen(i)
        q = sub(j, a)
        inr = And(self.reach(i), lt(i, self.hi), le(0, q), lt(q, self.plen(i)))
        if inr is False:
            return True
        c = self.pb(i, q)
        return Imp(inr, And(eq(self.OS(j), c), ne(c, 0) if self.nonzero else True))

    def install(self, st):
        eng = self.eng
        osn, inn = self.OSf.name(), self.marksrc
        MARK = self.MARK

        def on_input(i):
            return [eq(atom(MARK(z(i))), 0)] if eng._cur_gen == 0 and not self.explicit else []

        def on_mark(args):
            i = fromz(args[0])
            out = list(self.step(i))
            for a in eng._cur_apps.get(osn, ()):
                out.append(self.at(i, fromz(a.arg(0))))
            return out

        def on_os(args):
            j = fromz(args[0])
            return [self.at(fromz(a.arg(0)), j) for a in eng._cur_apps.get(inn, ())] + ([self.at(j, j)] if self.ident else [])
        st.rules(self.text.on_read(on_input) + [(inn, on_mark), (osn, on_os)])
        if not self.ident:
            st.assume(eq(self.olen(self.lo), 0), le(0, self.olen(self.hi)))
        if self.width is not None:
            st.assume(eq(atom(self.RE(z(self.lo))), 1), eq(atom(self.RE(z(self.hi))), 1))
        for nm, f, init, nxt in self.states:
            st.assume(eq(atom(f(z(self.lo))), init))
        # (the last state component feeds the closing piece, if any)
        if not self.explicit:
            st.assume(eq(atom(MARK(z(sub(self.hi, 1)))), 0), eq(atom(MARK(z(self.lo))), 0))

    def token_start(self, i):
        if not self.explicit:
            return self.reach(i)
        return TokenStart(self, i)

    def lemma_bound(self, eng, st, B):
        """no token emits more than B bytes per byte read  =>  olen(hi) <= (hi-lo)*B   (induction over the tokens)"""
        k = fresh('kb')
        s = st.copy()
        s.assume(And(self.reach(k), lt(k, self.hi)))
        s.assume(eq(atom(self.MARK(z(k))), 0))
        pl = add(self.plen(k), self.pot(add(k, self.w(k))))
        g = le(pl, add(self.pot(k), mul(self.cons(k), B)))
        if self.width is not None:
            g = Or(le(pl, add(self.pot(k), B)), And(le(1, B), le(pl, self.w(k))))
        if eng.holds(s, g):
            st.assume(le(self.olen(self.hi), mul(self.total, B)))
            return True
        return False

    def on_alloc(self, eng, st, size):
        """try the induction for the factors occurring in the size expression"""
        if self.ident:
            return
        cands = [1]
        if not isinstance(size, int):
            for i, c in size.m:
                t = T._ATOM[i]
                if t.decl().name() == 'mulf':
                    for x in (fromz(t.arg(0)), fromz(t.arg(1))):
                        cands.append(scale(x, c))
                elif c > 1:
                    cands.append(c)
        for B in cands:
            self.lemma_bound(eng, st, B)

    def cands(self, v, p):
        out = []
        ins = in_pos(v, p)
        objs = out_objs(v, p)
        if self.states:
            # (a loop may stand at the last byte it has dealt with)
            ins += [(a + '+1', lambda w, fa=fa: add(fa(w), 1)) for a, fa in ins]
        for a, fa in ins:
            out.append(Cand('%s is a token start' % a, lambda w, fa=fa: self.token_start(fa(w))))
            if not isinstance(self.lo, int):
                out.append(Cand('%s before the first token' % a, lambda w, fa=fa: le(fa(w), self.lo)))
            for nm, f, init, nxt in self.states:
                out.append(Cand('no output from the start of the loop to %s' % a, lambda w, fa=fa: And(self.reach(fa(w)), eq(self.olen(fa(w)), self.olen(fa(AtStart(w)))))))
                for n in v.ptrs():
                    out.append(Cand('%s holds state %s at %s' % (n, nm, a), lambda w, fa=fa, n=n, f=f: And(self.reach(fa(w)),
                               Imp(eq(w.phi[n].o, 0), eq(atom(f(z(fa(w)))), 0)),
                               Imp(ne(w.phi[n].o, 0), And(ne(atom(f(z(fa(w)))), 0), eq(w.st.rdq('i8', w.phi[n].o, w.phi[n].f), atom(f(z(fa(w))))))))))
                for n in v.ints():
                    if n != a:
                        out.append(Cand('%s is state %s at %s' % (n, nm, a), lambda w, fa=fa, n=n, f=f: And(self.reach(fa(w)),
                                   eq(w.phi[n], atom(f(z(fa(w))))))))
        for oi, o in enumerate(objs):
            outs = out_pos(v, o)
            for a, fa in ins:
                for b, fb in outs:
                    if a == b:
                        continue
                    out.append(Cand('%s is the output position of input %s' % (b, a),
                                    lambda w, fa=fa, fb=fb: And(self.reach(fa(w)), eq(fb(w), self.olen(fa(w))))))
                    for nm, f, init, nxt in self.states:
                        # what is pending may have been written as soon as it was known
                        out.append(Cand('%s is the output position of input %s and what was pending there' % (b, a), lambda w, fa=fa, fb=fb, f=f: And(
                            self.reach(fa(w)), eq(fb(w), add(self.olen(fa(w)), ite(ne(atom(f(z(fa(w)))), 0), 1, 0))), Imp(ne(atom(f(z(fa(w)))), 0), le(1, self.plen(fa(w)))))))
            for b, fb in outs:
                out.append(Cand('output before %s (object %d) is as specified' % (b, oi),
                                lambda w, o=o, fb=fb: All('out', 'i8', o, 0, 1, 0, fb(w),
                                                          lambda k: eq(w.st.rdq('i8', o, k), self.OS(k)))))
                out.append(Cand('output position %s in bounds %d' % (b, oi),
                                lambda w, o=o, fb=fb: And(le(0, fb(w)), lt(fb(w), w.st.rdq('size', o, 0)))))
            if self.ident:
                # the result may be a copy that is changed in place
                for b, fb in outs:
                    out.append(Cand('the text stands from %s on (object %d)' % (b, oi),
                                    lambda w, o=o, fb=fb: And(le(0, fb(w)), le(fb(w), self.hi)) if w.eng.holds(w.st, ne(o, 0)) else None))
                    out.append(Cand('what stands from %s on (object %d) is the text' % (b, oi),
                                    lambda w, o=o, fb=fb: All('in', 'i8', o, 0, 1, fb(w), add(self.hi, 1),
                                                              lambda k: eq(w.st.rdq('i8', o, k), self.text(k)))))
                for a, fa in ins:
                    out.append(Cand('output before input %s (object %d) is as specified' % (a, oi),
                                    lambda w, o=o, fa=fa: All('out', 'i8', o, 0, 1, 0, fa(w),
                                                              lambda k: eq(w.st.rdq('i8', o, k), self.OS(k)))))
            for n in v.ptrs():
                # copying a replacement: how much of the piece is out
                for b, fb in outs:
                    out.append(Cand('%s within its piece %d' % (b, oi), lambda w, b=b, fb=fb: le(w.init[b].f, fb(w)) if b in w.init and isinstance(w.init[b], Ptr) else None))
        return out


class AtStart:
    """the view of a loop with the variables as they were when it was entered"""
    def __init__(self, w):
        self.phi, self.init, self.st, self.it = w.init, w.init, w.st, 0


class TokenStart(Clause):
    name = 'token start'

    def __init__(self, tr, i):
        self.tr, self.i = tr, i

    def assume(self, eng, st):
        st.assume(self.tr.reach(self.i), eq(atom(self.tr.MARK(z(self.i))), 0))

    def prove(self, eng, st, what):
        return eng.prove(st, self.tr.reach(self.i), what)


class Filter(FnSpec):
    """char *clean_x(char *filename, ...): NULL for NULL, else a fresh string; the name is untouched"""
    argname = 0
    table_arg = None

    def requires(self, eng, st, args):
        p = args[0]
        if eng.spec is self:
            if self.variant == 'null':
                return []
            self.n = fresh('n')
            return [Str('name is a string', p, self.n)]
        return [Either('name is NULL or a string', p, IsStr('name is a string', p))]

    variants = ('null', 'name')

    def vary(self, eng, st, args, variant):
        return [NULL] + args[1:] if variant == 'null' else args

    def cases(self, eng, pre, args):
        p = args[0]
        cs = [Case('no name', lambda s, r: And(eq(p.o, 0), eq(r.o, 0)), lambda s, r: [], make=lambda e, pr, s, a: NULL)]
        if eng.spec is self:
            cs.append(Case('cleaned', lambda s, r: And(ne(p.o, 0), ne(r.o, 0)), lambda s, r: self.post(eng, pre, s, args, r)))
        else:
            cs.append(Case('cleaned', lambda s, r: ne(p.o, 0), lambda s, r: self.abstract_post(eng, pre, s, args, r), make=fresh_ptr))
        return cs

    def abstract_post(self, eng, pre, s, args, r):
        sf = eng.find_str(pre, args[0])
        return [Fresh('result is new', r, pre), Str('result is a string', r, fresh('m'), val=self.result_val(eng, pre, args, sf.val))]


def clean_val(fn, val, *settings):
    """the text a cleaning function makes of a text: a function of the text and of its settings, because the contract of
    the cleaning function determines every byte of the result"""
    n = 1 + len(settings)
    return atom(z3.Function('text_' + fn, *([IntS] * (n + 1)))(z(val), *[z(x) for x in settings]))


class Either(Clause):
    """pointer is NULL, or clause c"""
    def __init__(self, name, p, c, props=None):
        self.name, self.p, self.c, self.props = name, p, c, props

    def assume(self, eng, st):
        # callers of verify() split on NULL themselves
        if isinstance(self.p.o, int):
            if self.p.o != 0:
                self.c.assume(eng, st)
            return
        if eng.holds(st, ne(self.p.o, 0)):
            self.c.assume(eng, st)

    def prove(self, eng, st, what):
        if eng.holds(st, eq(self.p.o, 0)):
            return True
        return self.c.prove(eng, st, what)


class Simple(Filter):
    """filters without a table, described by a transducer over the name"""
    def begin(self, eng, st, args, fn):
        self.tr = None
        if self.variant == 'null':
            return
        self.p = args[0]
        self.text = Text(eng, st, self.p)
        self.tr = self.transducer(eng, st, args)
        self.tr.install(st)

    def candidates(self, v):
        return self.tr.cands(v, self.p) if self.tr else []

    def on_alloc(self, eng, st, size):
        if self.tr:
            self.tr.on_alloc(eng, st, size)

    def post(self, eng, pre, s, args, r):
        t = self.tr
        m = t.olen(t.hi)
        return [Fresh('result is a new block', r, pre, props=['C01']),
                F('result holds all output', lt(m, s.size(r.o)), props=['C01']),
                F('name untouched', True),
                F('result is terminated where the specified output ends', eq(s.rd('i8', r.o, m), 0), props=[self.prop]),
                All('every byte of the result is as specified', 'i8', r.o, 0, 1, 0, m, lambda k: eq(s.rdq('i8', r.o, k), t.OS(k)), props=[self.prop])]


@spec
class CleanLower(Simple):
    name = 'clean_lower'
    prop = 'C10'
    props = ('C01', 'C10')

    def transducer(self, eng, st, args):
        tx = self.text

        def pb(i, q):
            c = tx(i)
            return ite(And(le(65, c), le(c, 90)), add(c, 32), c)
        return Trans(eng, tx, 0, self.n, lambda i: 1, pb, ident=True)

    def result_val(self, eng, pre, args, val):
        return clean_val(self.name, val)


@spec
class CleanUncgi(Simple):
    name = 'clean_uncgi'
    prop = 'C09'
    props = ('C01', 'C09')

    def transducer(self, eng, st, args):
        tx = self.text
        xd = lambda c: rng(c, *XD)

        def esc(i):
            return And(eq(tx(i), 37), xd(tx(add(i, 1))), xd(tx(add(i, 2))))

        def pb(i, q):
            return ite(esc(i), add(scale(hexval(tx(add(i, 1))), 16), hexval(tx(add(i, 2)))), ite(eq(tx(i), 43), 32, tx(i)))
        return Trans(eng, tx, 0, self.n, lambda i: 1, pb, width=lambda i: ite(esc(i), 3, 1), nonzero=False)

    def result_val(self, eng, pre, args, val):
        return clean_val(self.name, val)


@spec
class CleanWipeup(Simple):
    name = 'clean_wipeup'
    prop = 'C08'
    props = ('C01', 'C08')

    def transducer(self, eng, st, args):
        tx, n = self.text, self.n
        trail = ne(args[1], 0)
        lead = lambda c: Or(eq(c, 45), eq(c, 95), eq(c, 35))
        i0 = fresh('i0')
        # (exists: the terminator is not one of the dropped characters)
        st.assume(And(le(0, i0), le(i0, n)), Not(lead(tx(i0))))
        All('dropped', 'i8', self.p.o, self.p.f, 1, 0, i0, lambda k: lead(tx(k)), mems=[tx.m]).assume(eng, st)
        sep = lambda c: Or(eq(c, 45), eq(c, 95), And(trail, eq(c, 46)))
        best = lambda a, c: ite(Or(eq(a, 46), eq(c, 46)), 46, ite(Or(eq(a, 45), eq(c, 45)), 45, 95))

        def nxt(i):
            return ite(sep(tx(i)), best(tr.state('pend', i), tx(i)), 0)

        def plen(i):
            return ite(eq(i, n), ite(ne(tr.state('pend', i), 0), 1, 0),
                       ite(sep(tx(i)), 0, ite(ne(tr.state('pend', i), 0), 2, 1)))

        def pb(i, q):
            p = tr.state('pend', i)
            return ite(And(ne(p, 0), eq(q, 0)), p, tx(i))
        tr = Trans(eng, tx, i0, add(n, 1), plen, pb, states=[('pend', 0, nxt)],
                   pot=lambda i: ite(And(le(i, n), ne(tr.state('pend', i), 0)), 1, 0), cons=lambda i: ite(lt(i, n), 1, 0), total=sub(n, i0))
        return tr

    def result_val(self, eng, pre, args, val):
        return clean_val(self.name, val, ite(eq(args[1], 0), 0, 1))


@spec
class CleanMaxLength(Filter):
    name = 'clean_max_length'
    prop = 'C11'
    props = ('C01', 'C11')

    def result_val(self, eng, pre, args, val):
        return clean_val(self.name, val, eng.uns(pre, args[1], 64))

    def begin(self, eng, st, args, fn):
        if self.variant == 'null':
            return
        p, n = args[0], self.n
        self.p = p
        tx = self.text = Text(eng, st, p)
        L = eng.uns(st, args[1], 64)
        self.L = L = ite(eq(L, 0), 256, L)
        dot = lambda k: eq(tx(k), 46)
        hasdot, r = freshb('hasdot'), fresh('lastdot')
        st.assume(Imp(hasdot, And(le(0, r), lt(r, n), dot(r))))
        All('dots', 'i8', p.o, p.f, 1, 0, n, lambda k: And(Imp(hasdot, Imp(lt(r, k), Not(dot(k)))), Imp(Not(hasdot), Not(dot(k)))), mems=[tx.m]).assume(eng, st)
        e = r
        for d in (5, 4, 3, 2, 1):
            k = sub(r, d)
            e = ite(And(lt(0, k), dot(k)), k, e)
        real = And(hasdot, lt(r, sub(n, 1)))
        elen = sub(n, e)
        long = lt(L, n)
        self.giveup = And(long, real, le(L, elen))
        keepext = And(long, real, lt(elen, L))
        body = sub(L, elen)
        self.m = ite(Or(Not(long), self.giveup), n, L)
        self.byte = lambda k: ite(And(keepext, le(body, k)), tx(add(e, sub(k, body))), tx(k))

    def post(self, eng, pre, s, args, r):
        m = self.m
        return [Fresh('result is a new block', r, pre, props=['C01']),
                F('result holds all output', lt(m, s.size(r.o)), props=['C01']),
                F('result is terminated where the specified output ends', eq(s.rd('i8', r.o, m), 0), props=['C11']),
                All('every byte of the result is as specified', 'i8', r.o, 0, 1, 0, m, lambda k: eq(s.rdq('i8', r.o, k), self.byte(k)), props=['C11']),
                F('warns when the extension does not fit', Or(Not(self.giveup), any(e[0] == 'out' and stream_name(eng, s, e[1]) == 'stderr' for e in s.events)), props=['C11'])]


# ---------------------------------------------------------------- allocation wrappers (C21)
@spec
class WrappedMalloc(FnSpec):
    name = 'wrapped_malloc'
    props = ('C21',)

    def cases(self, eng, pre, args):
        n = eng.uns(pre, args[0], 64)
        return [Case('allocated', lambda s, r: ne(r.o, 0),
                     lambda s, r: [Fresh('block of the requested size', r, pre, n)], make=fresh_ptr)]

    def effects(self, eng, pre, st, args):
        n = eng.uns(pre, args[0], 64)
        st.assume(lt(n, 2 ** 46))
        h = getattr(eng.spec, 'on_alloc', None)
        if h:
            h(eng, st, n)

    def apply(self, eng, st, args, ins, t):
        out = super().apply(eng, st, args, ins, t)
        for s, r in out:
            s.assume(eq(role(r.o), 0))
            s.events = s.events + (('malloc', args[0], r),)
        return out

    def on_exit(self, eng, st, code, ins):
        oom_exit(eng, st, code, ins)


def oom_exit(eng, st, code, ins):
    eng.oblige(st, ne(code, 0), 'gives up with a failure status', ins, props=['C21'], assume=False)
    last = [e for e in st.events if e[0] in ('malloc', 'strdup')]
    eng.oblige(st, z3.BoolVal(bool(last) and last[-1][-1] is NULL), 'gives up only after a failed allocation', ins, props=['C21'], assume=False)
    msg = any(e[0] == 'out' and stream_name(eng, st, e[1]) == 'stderr' for e in st.events)
    eng.oblige(st, z3.BoolVal(msg), 'reports the failure on the error stream', ins, props=['C21'], assume=False)


def stream_name(eng, st, s):
    """'stdout'/'stderr' when the stream is the value of that global"""
    if isinstance(s, str):
        return s
    for nm in ('stdout', 'stderr', 'stdin'):
        o = eng.globid.get(nm)
        if o is not None:
            g = st.rdptrq(o, 0)
            if const_diff(g.o, s.o) == 0:
                return nm
    return None


@spec
class WrappedStrdup(FnSpec):
    name = 'wrapped_strdup'
    props = ('C21',)

    def requires(self, eng, st, args):
        if eng.spec is self:
            self.n = fresh('n')
            return [Str('argument is a string', args[0], self.n)]
        return [IsStr('argument is a string', args[0])]

    def cases(self, eng, pre, args):
        sf = eng.find_str(pre, args[0])
        if sf is None:
            n, val = fresh('len'), fresh('sv')
        else:
            n, val = sf.n, sf.val
        m0 = pre.mem['i8']
        p = args[0]
        return [Case('copied', lambda s, r: ne(r.o, 0),
                     lambda s, r: [Fresh('block of the string size', r, pre, add(n, 1)), CopyOf('copy of the text', r, p, n, val, m0)], make=fresh_ptr)]

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        sf = need_str(eng, st, args[0], ins, 'wrapped_strdup argument')
        pre = st.copy()
        p = dup(eng, st, args[0], sf, ins)
        st.assume(eq(role(p.o), 0))
        st.events = st.events + (('strdup', p),)
        return [(st, p)]

    def on_exit(self, eng, st, code, ins):
        oom_exit(eng, st, code, ins)


class CopyOf(Clause):
    def __init__(self, name, r, p, n, val, m0, props=None):
        self.name, self.r, self.p, self.n, self.m0, self.props = name, r, p, n, m0, props

    def assume(self, eng, st):
        pass

    def prove(self, eng, st, what):
        k = fresh('kc')
        return eng.prove(st, Imp(And(le(0, k), le(k, self.n)),
                                 eq(read(st.mem['i8'], self.r.o, k, eng, st), read(self.m0, self.p.o, add(self.p.f, k), eng, None))), what)
