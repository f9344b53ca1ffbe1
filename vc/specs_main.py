"""The program itself: every argument is dealt with once, according to its kind (C25)."""
import re
import z3
import layout
from term import *
import term as T
from engine import *
from contracts import *
import libc_fs
from libc_fs import is_mode
from specs_filter import stream_name
from specs_list import ListInv, find_list, PTR, LIST
from specs_seq import SeqOk, COUNTER_WRITES
import specs_file
from specs_file import *
from specs_file import Pending, Settled
from loops import Cand

SPECS = {}


def spec(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


(CSEQS, CIGNORE, CSIZE) = layout.one('config_file_t')


class Arg(Clause):
    """an entry of the list of files"""
    def __init__(self, sp, p, guard=True):
        self.sp, self.p, self.guard, self.name, self.props = sp, p, guard, 'argument', None

    def f(self, st):
        v = st.ghost['files']
        if v is None:
            return z3.BoolVal(False)
        p = self.p
        i = v.idx(p.o)
        return Imp(And(self.guard, ne(p.o, 0)), And(eq(p.f, 0), le(0, i), lt(i, v.count), eq(p.o, v.obj(i))))

    def assume(self, eng, st):
        st.assume(self.f(st))
        v = st.ghost['files']
        i = v.idx(self.p.o)
        st.touch(v.obj(i))
        eng.assume_str_if(st, And(self.guard, ne(self.p.o, 0)), self.p, v.len(i), v.val(i))

    def prove(self, eng, st, what):
        v = st.ghost['files']
        if v is None:
            return False
        s = st.copy()
        s.touch(v.obj(v.idx(self.p.o)))
        return eng.holds(s, self.f(s))


@spec
class Main(Pending, FnSpec):
    name = 'main'
    props = ('C25', 'C03', 'C18')
    main_props = ['C25']
    KINDS = ('lstat', 'stat', 'parse_file', 'parse_dir', 'parse_inline', 'opendir', 'rename')
    SOURCE = ('entry', 'entryend')
    Item = Arg
    variants = ('files', 'inline')

    def requires(self, eng, st, args):
        return []

    def modifies(self, eng, st, args):
        return [('all', c) for c in ('i8', 'i16', 'i32', 'i64', 'p')]

    def begin(self, eng, st, args, fn):
        self.pend_begin(st)
        st.ghost['dcount'] = 0
        for k in ('opts', 'conf', 'files', 'chosen'):
            st.ghost[k] = None

    def must_terminate(self, fn, header):
        return False      # shown by the count of arguments below

    # ---------------- what the parts report
    def on_options(self, eng, st, r, files):
        st.ghost['opts'] = r
        st.ghost['files'] = files
        inl, lst = st.rd('i32', r.o, INLINE), st.rd('i32', r.o, LISTSEQ)
        self.listing = ne(lst, 0)
        self.inline = ne(inl, 0)
        self.special = ne(st.rd('i32', r.o, SPECIAL), 0)
        self.seqname = st.rdptr(r.o, OSEQNAME)
        st.assume(Or(self.listing, self.inline if self.variant == 'inline' else Not(self.inline)))

    def on_config(self, eng, st, r):
        st.ghost['conf'] = r

    def on_choose(self, eng, st, q, n, r):
        st.ghost['chosen'] = r
        c = st.rdptr(st.ghost['conf'].o, CSEQS) if st.ghost['conf'] is not None else None
        O = lambda g, nm: eng.oblige(st, g, nm, '', props=['C18', 'C25'])
        O(And(eq(q.o, c.o), eq(q.f, c.f)) if c is not None else z3.BoolVal(False), 'the sequence is chosen from the configuration')
        O(And(eq(n.o, self.seqname.o), eq(n.f, self.seqname.f)), 'the sequence is chosen by the name in the options')

    # ---------------- one argument
    def on_get(self, eng, st, p, v, pos, ins):
        if st.ghost['files'] is None or p.o is None:
            return
        eng.oblige(st, z3.BoolVal(v is st.ghost['files']), 'the arguments are taken from the list of files', ins, props=['C25'])
        if not any(happened(e, ('entry',)) for e in st.events):
            pass
        else:
            self.settle(eng, st, ins)
        eng.oblige(st, eq(pos, st.ghost['dcount']), 'the arguments are taken in order, each once', ins, props=['C25'])

    def after_get(self, eng, st, p, r, ins):
        self.taken(eng, st, r)
        if r is not NULL:
            st.ghost['dcount'] = add(st.ghost['dcount'], 1)

    def right_config(self, eng, st):
        """sequence and ignore list are those chosen"""
        if st.ghost['chosen'] is None or st.ghost['conf'] is None:
            return z3.BoolVal(False)
        o = st.ghost['opts'].o
        s, i = st.rdptr(o, OSEQ), st.rdptr(o, OIGNORE)
        c = st.rdptr(st.ghost['conf'].o, CIGNORE)
        return And(eq(s.o, st.ghost['chosen'].o), eq(s.f, st.ghost['chosen'].f), eq(i.o, c.o), eq(i.f, c.f))

    def dealt(self, eng, st, p, evs):
        sf = eng.find_str(st, p)
        if sf is None:
            return [('the argument taken last is known', z3.BoolVal(False), None)]
        kinds = [e[0] for e in evs]
        if not kinds or kinds[0] != 'lstat':
            return [('an argument is examined first, without following links', z3.BoolVal(False), None)]
        out = [('the argument examined is the one taken', eq(evs[0][2].val, sf.val), None)]
        ex, rest = evs[0], evs[1:]
        k = kinds[1:]
        for e in rest:
            if e[0] in ('parse_file', 'parse_inline'):
                out.append(('what is processed is the argument taken', eq(e[2].val, sf.val) if e[2] is not None else z3.BoolVal(False), None))
            out.append(('it is processed with the options of the command line', eq(e[-1].o, st.ghost['opts'].o) if e[0] != 'lstat' else z3.BoolVal(False), None))
        out.append(('it is processed with the sequence chosen and the ignore list of the configuration', self.right_config(eng, st), ['C18', 'C25', 'C05']))
        if ex[3] == -1:
            msgs = [e for e in self.others(st, ('out',)) if stream_name(eng, st, e[1]) == 'stderr' and any(s[3][0] == 'str' and eng.holds(st, eq(s[3][2].val, sf.val)) for s in e[2] or [])]
            out.append(('a missing argument is reported, and not processed', z3.BoolVal(not k and bool(msgs)), None))
            return out
        isdir, isreg = is_mode(eng, st, ex[4].mode, DIRMODE), is_mode(eng, st, ex[4].mode, REGMODE)
        if self.variant == 'inline':
            if k == []:
                out.append(('only directories are not filtered', isdir, None))
            elif k == ['parse_inline']:
                out.append(('directories are not filtered', Not(isdir), None))
                out.append(('the result goes to the output', eq(rest[0][3].o, 0), None))
            else:
                out.append(('an argument is filtered once', z3.BoolVal(False), None))
            return out
        if k == []:
            out.append(('only links and special files are left alone', And(Not(isdir), Not(isreg), Not(self.special)), None))
        elif k == ['parse_file']:
            out.append(('files are cleaned, links and special files only on request', And(Not(isdir), Or(isreg, self.special)), None))
        elif k == ['parse_file', 'parse_dir']:
            out.append(('only directories are entered', isdir, None))
            out.append(('a directory is entered under its resulting name', eq(rest[1][2].val, rest[0][4].val) if rest[1][2] is not None else z3.BoolVal(False), None))
        else:
            out.append(('an argument is cleaned once, and entered afterwards', z3.BoolVal(False), None))
        return out

    def candidates(self, v):
        if v.st.ghost['opts'] is None or v.st.ghost['files'] is None:
            return []
        fo = v.st.ghost['files'].o

        def cursor(w):
            pos = w.st.rd('i32', fo, PTR)
            return And(eq(pos, ite(eq(w.st.ghost['dstate'], ENDED), 0, w.st.ghost['dcount'])), le(0, pos), le(pos, w.st.ghost['files'].count))
        return [Cand('the position is the number of arguments taken', cursor),
                Cand('the sequence and the ignore list stay the ones chosen', lambda w: self.right_config(v.eng, w.st)),
                Cand('the ignored names stay in place', lambda w: InPlace(v.eng.pre, self, w.st))] + self.pend_cands(v)

    def idle(self, st):
        return not any(happened(e, self.KINDS) for e in st.events)

    def at_return(self, eng, pre, s, args, r, ins):
        O = lambda g, n, pr=['C25']: eng.oblige(s, g if not isinstance(g, bool) else z3.BoolVal(g), n, ins, props=pr)
        if s.ghost['opts'] is None or s.ghost['conf'] is None or s.ghost['chosen'] is None:
            O(False, 'options, configuration and sequence are determined')
            return
        O(eq(r, 0), 'success is reported')
        t = s.copy()
        t.assume(self.listing)
        if t.feasible():
            eng.oblige(t, z3.BoolVal(self.idle(t)), 'listing mode processes nothing', ins, props=['C25', 'C03'])
            s = s.copy()
            s.assume(Not(self.listing))
            if not s.feasible():
                return
        O = lambda g, n, pr=['C25']: eng.oblige(s, g if not isinstance(g, bool) else z3.BoolVal(g), n, ins, props=pr)
        if self.variant == 'inline':
            evs = self.since(s)
            none = eq(s.ghost['files'].count, 0)
            if not any(happened(e, ('entry', 'entryend')) for e in s.events):
                t = s.copy()
                O(none, 'arguments are processed if there are any')
                ok = evs is not None and [e[0] for e in evs] == ['parse_inline']
                O(ok and And(eq(evs[0][1].o, 0), eq(evs[0][3].o, 0), eq(evs[0][4].o, s.ghost['opts'].o), self.right_config(eng, s)), 'without arguments the standard input is filtered to the output')
                return
            t = s.copy()
            t.assume(none)
            if t.feasible():
                eng.oblige(t, z3.BoolVal(evs is not None and [e[0] for e in evs] == ['parse_inline']), 'without arguments the standard input is filtered', ins, props=['C25'])
            s = s.copy()
            s.assume(Not(none))
            if not s.feasible():
                return
        eng.oblige(s, eq(s.ghost['dstate'], ENDED), 'all arguments are processed', ins, props=['C25'])
        self.settle(eng, s, ins)

    def on_exit(self, eng, st, code, ins):
        O = lambda g, n: eng.oblige(st, g if not isinstance(g, bool) else z3.BoolVal(g), n, ins, props=['C25', 'C03'])
        O(self.idle(st), 'nothing is processed when the program stops early')
        if st.ghost['opts'] is not None and st.ghost['opts'] is not NULL and st.ghost['conf'] is not None and st.ghost['conf'] is not NULL:
            O(Or(self.listing, eq(st.ghost['chosen'].o, 0)) if st.ghost['chosen'] is not None else False, 'the program stops early only in listing mode or without a sequence')

    def cases(self, eng, pre, args):
        return []


class InPlace(Clause):
    """the list of ignored names is well formed (its position may have moved)"""
    def __init__(self, pre, sp, st):
        self.sp, self.name, self.props = sp, 'in place', None

    def f(self, eng, st):
        if st.ghost['conf'] is None:
            return z3.BoolVal(False)
        l = st.rdptr(st.ghost['conf'].o, CIGNORE)
        f = find_list(eng, st, l)
        if f is None:
            return z3.BoolVal(False)
        pos = st.rd('i32', l.o, PTR)
        return And(le(0, pos), le(pos, f.view.count))

    def assume(self, eng, st):
        st.assume(self.f(eng, st))

    def prove(self, eng, st, what):
        return eng.holds(st, self.f(eng, st))
