"""Reading a translation table file (C17)."""
import z3
from term import *
import term as T
from engine import *
from contracts import *
import libc_fs
import libc_io
import libc_scan
from libc_scan import lib, word, number, upto, after
from libc_io import OPEN
from specs_filter import stream_name
from specs_table import *
from specs_table import TableInv, TSIZE, DFLT, MDL, TABLE, TEXT, TROWS
import specs_seq
from loops import Cand

SPECS = {}


def spec(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


def starts(v, text, n):
    """the text with value v and the given one agree, up to case, on the first n characters"""
    return eq(lib('strncasecmp', v, text, n), 0)


@spec
class ParseTable(specs_seq.ParseTable):
    """Ghosts: inside (a section is open), line (a line was read and its effect is due), and for this line what must
    happen: row, code, text (the replacement; empty when notext); done; dset/dval the default the file asked for so far;
    end (the stream has ended), refused (a row could not be stored)."""
    props = ('C17',)
    text = False
    record_rounds = True

    def requires(self, eng, st, args):
        return [Str('the file name is a string', args[0], fresh('n'), fresh('sv'))]

    def begin(self, eng, st, args, fn):
        self.IN = None
        st.ghost.update(inside=0, row=0, code=0, text=0, notext=0, done=0, dset=0, dval=0, end=0, refused=0, table=0)
        self.name_val = eng.find_str(st, args[0]).val
        self.ctype, self.ctlen = fresh('sv'), fresh('len')

    def locale(self, eng, st, ins):
        p = eng.fresh_val(st, ('ptr',), 'locale')
        st.assume(lt(0, p.o), eq(role(p.o), libc_fs.STREAM), lt(p.o, eng.pre.next))
        eng.assume_str(st, p, self.ctlen, self.ctype)
        return p

    def modifies(self, eng, st, args):
        return []

    def must_terminate(self, fn, header):
        return False      # the loop ends with the stream

    def fresh_ghost(self, eng, st, g):
        return fresh(g)

    # ---------------- what a line asks for
    def on_line(self, eng, st, f, buf, sf, ins):
        """a line was read into buf"""
        g = st.ghost
        opened = [e for e in st.events if e[0] == 'fopen']
        eng.oblige(st, eq(f.o, opened[-1][4].o) if opened else z3.BoolVal(False), 'the file opened is read', ins, props=['C17'])
        self.settle(eng, st, ins)
        if buf is NULL:
            g['end'] = 1
            return
        m, v = st.mem['i8'], sf.val
        ch = lambda i: read(m, buf.o, add(buf.f, i), eng, st)
        C = eng.const_val
        comment = eq(ch(0), 35)
        hasw, _, w = word(v)
        lc = [e for e in st.events if e[0] == 'setlocale']
        ctv = self.ctype if lc and lc[-1][1] is not NULL else C(b'')

        def arg(off, none):
            """the argument at a position: is it there; its value (when it is an empty quotation, `none`)"""
            c = ch(off)
            l2, v2 = upto(eng.suffix_val(v, add(off, 1)), 34)
            l1, v1 = upto(eng.suffix_val(v, add(off, 1)), 39)
            hw, _, vw = word(eng.suffix_val(v, off))
            empty = Or(And(eq(c, 34), eq(l2, 0)), And(eq(c, 39), eq(l1, 0)), And(ne(c, 34), ne(c, 39), Not(hw)))
            return ne(c, 0), empty, ite(eq(c, 34), v2, ite(eq(c, 39), v1, vw))
        # outside: start and default
        o1 = after(v, 's')
        there, empty, val = arg(o1, None)
        inside0 = ne(g['inside'], 0)
        out = And(Not(inside0), Not(comment), hasw)
        start = And(out, starts(w, C(b'start'), 5))
        lang = ite(empty, w, val)
        llen = fresh('langlen')
        opens = And(start, Or(Not(there), And(starts(lang, ctv, self.length(lang)))))
        deflt = And(out, Not(start), starts(w, C(b'default'), 7))
        # inside: rows and end
        ret, code = number(v, 'i')
        isnum = And(eq(ret, 1), le(0, code))
        inn = And(inside0, Not(comment))
        o2 = after(v, 'i')
        rthere, rempty, rval = arg(o2, None)
        g['row'] = ite(And(inn, isnum, rthere), 1, 0)
        g['code'], g['text'], g['notext'] = code, rval, ite(rempty, 1, 0)
        g['done'] = 0
        closes = And(inn, Not(isnum), hasw, starts(w, C(b'end'), 5))
        g['inside'] = ite(opens, 1, ite(closes, 0, g['inside']))
        g['dset'] = ite(deflt, ite(And(there, Not(empty)), 1, 0), g['dset'])
        g['dval'] = ite(deflt, val, g['dval'])

    def length(self, v):
        return lib('lengthof', v)

    def settle(self, eng, st, ins):
        """the effect of the last line is complete"""
        g = st.ghost
        eng.oblige(st, And(eq(g['row'], g['done']), eq(g['refused'], 0)), 'every row of an open section is stored', ins, props=['C17'])
        if not (isinstance(g['table'], int) and g['table'] == 0):
            eng.oblige(st, DefaultIs(self), 'the default is the one the file asks for', ins, props=['C17'])

    def on_put(self, eng, st, tb, k, sf, r, ins):
        g = st.ghost
        O = lambda c, n: eng.oblige(st, c, n, ins, props=['C17'])
        O(And(eq(g['row'], 1), eq(g['done'], 0)), 'only rows of open sections are stored, once')
        O(eq(tb.o, g['table']), 'rows are stored in the table returned')
        O(eq(k, g['code']), 'a row is stored under its code')
        O(And(Imp(eq(g['notext'], 1), eq(sf.n, 0)), Imp(ne(g['notext'], 1), eq(sf.val, g['text']))), 'a row is stored with its replacement')
        g['done'] = 1
        g['refused'] = 1 if isinstance(r, int) and r == -1 else 0

    def on_fopen(self, eng, st, p, sf, mode, r, ins):
        eng.oblige(st, z3.BoolVal(mode in (b'r', b'rb')), 'the file is opened to read it', ins, props=['C17'])
        eng.oblige(st, eq(sf.val, self.name_val), 'the file opened is the one named', ins, props=['C17'])

    def on_table(self, eng, st, r):
        st.ghost['table'] = r.o

    def candidates(self, v):
        g0 = v.entry.ghost
        out = [Cand('no row is due', lambda w: And(eq(w.st.ghost['row'], w.st.ghost['done']), eq(w.st.ghost['refused'], 0))),
               Cand('the stream has not ended', lambda w: eq(w.st.ghost['end'], 0)),
               Cand('sections are open or not', lambda w: Or(eq(w.st.ghost['inside'], 0), eq(w.st.ghost['inside'], 1))),
               Cand('the default is set or not', lambda w: Or(eq(w.st.ghost['dset'], 0), eq(w.st.ghost['dset'], 1))),
               Cand('the table is usable', lambda w: TableInv('', Ptr(g0['table'], 0))),
               Cand('the default is as asked for', lambda w: DefaultIs(self, [e[-1].o for e in v.entry.events if e[0] == 'malloc']))]
        for n in v.ints():
            out.append(Cand('%s tells whether a section is open' % n, lambda w, n=n: eq(w.phi[n], w.st.ghost['inside'])))
            out.append(Cand('%s tells whether no section is open' % n, lambda w, n=n: eq(w.phi[n], sub(1, w.st.ghost['inside']))))
        for e in v.entry.events:
            if e[0] in ('malloc', 'wrapped_malloc') and e[-1] is not NULL:
                out.append(Cand('block %s stays allocated' % len(out), lambda w, o=e[-1].o: eq(w.st.kind(o), 1)))
            if e[0] == 'fopen' and e[4] is not NULL:
                out.append(Cand('the stream stays open', lambda w, o=e[4].o: eq(w.st.kind(o), OPEN)))
        return out

    def at_return(self, eng, pre, st, args, r, ins):
        g = st.ghost
        O = lambda c, n: eng.oblige(st, c if not isinstance(c, bool) else z3.BoolVal(c), n, ins, props=['C17'])
        bad = any(e[0] in ('stat', 'lstat') and e[3] == -1 or e[0] == 'fopen' and e[4] is NULL for e in st.events)
        none = eq(r.o, 0)
        failed = Or(bad, eq(g['refused'], 1))
        O(Iff(none, failed), 'no table is returned exactly when the file cannot be opened or a row cannot be stored')
        t = st.copy()
        t.assume(Not(none))
        if not t.feasible():
            return
        P = lambda c, n: eng.oblige(t, c, n, ins, props=['C17'])
        P(And(eq(r.o, g['table']), eq(r.f, 0)), 'the table filled is returned')
        P(eq(g['end'], 1), 'the whole file is read')
        self.settle(eng, t, ins)
        eng.oblige(t, TableInv('', r), 'the table is usable', ins)
        eng.oblige(t, And(le(pre.next, r.o), eq(t.kind(r.o), 1), le(TSIZE, t.size(r.o))), 'the table is new', ins)

    def on_exit(self, eng, st, code, ins):
        if not any(e[0] in ('malloc', 'strdup') and e[-1] is NULL for e in st.events):
            eng.oblige(st, z3.BoolVal(False), 'the program does not end while reading a table', ins, props=['C17'], assume=False)

    def cases(self, eng, pre, args):
        return []


class DefaultIs(Clause):
    """the default of the table is NULL, or the text the file gave last"""
    def __init__(self, sp, others=()):
        self.sp, self.name, self.props, self.others = sp, 'default', ['C17'], others

    def apart(self, p):
        return And(*[ne(p.o, o) for o in self.others])

    def assume(self, eng, st):
        g = st.ghost
        p = st.rdptr(g['table'], DFLT)
        st.assume(Iff(ne(p.o, 0), eq(g['dset'], 1)), eq(p.f, 0), lt(p.o, st.next))
        n = fresh('len')
        eng.assume_str_if(st, ne(p.o, 0), p, n, g['dval'])
        st.assume(Imp(ne(p.o, 0), And(le(eng.pre.next, p.o), eq(st.kind(p.o), 1), self.apart(p))))

    def prove(self, eng, st, what):
        g = st.ghost
        p = st.rdptr(g['table'], DFLT)
        if not eng.prove(st, Iff(ne(p.o, 0), eq(g['dset'], 1)), what):
            return False
        t = st.copy()
        t.assume(ne(p.o, 0))
        if not t.feasible():
            return True
        sf = eng.find_str(t, p)
        return sf is not None and eng.prove(t, And(eq(sf.val, g['dval']), eq(p.f, 0), le(eng.pre.next, p.o), eq(t.kind(p.o), 1), self.apart(p)), what)
