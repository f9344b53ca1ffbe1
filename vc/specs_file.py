"""Processing files and directories (C02, C03, C04, C05), arguments (C25), inline mode (C19)."""
import z3
import layout
from term import *
import term as T
from engine import *
import engine
from contracts import *
import libc_fs
import libc_io
from libc_io import OPEN
from libc_fs import is_mode, NAMEOFF, STREAM, DIRENT
from specs_filter import Either, stream_name
from specs_list import ListInv, find_list, PTR
from specs_seq import SeqOk, COUNTER_WRITES, TextIs, SEQ
from loops import Cand

SPECS = {}


def spec(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


(DRY, INLBIN, INLINE, LISTSEQ, RECURSE, SPECIAL, VERBOSE, OSEQ, OIGNORE, OSEQNAME, OCONF, OFILES, OSIZE) = layout.one('options_t')
OPTIONS = 41
LIST = 21
DIRMODE, REGMODE = 0o040000, 0o100000
FSALL = ('C02', 'C03', 'C04', 'C05')


class OptionsOk(Clause):
    """the option record, with a usable sequence and the list of names to ignore"""
    def __init__(self, name, o, props=None, ignore=True):
        self.name, self.o, self.props, self.ignore = name, o, props, ignore

    def f(self, st):
        o = self.o
        return And(ne(o.o, 0), eq(o.f, 0), eq(role(o.o), OPTIONS), ne(st.kind(o.o), 0), le(OSIZE, st.size(o.o)))

    def assume(self, eng, st):
        st.assume(self.f(st))
        q, l = st.rdptr(self.o.o, OSEQ), st.rdptr(self.o.o, OIGNORE)
        SeqOk('', q).assume(eng, st)
        ListInv('', l).assume(eng, st)
        st.assume(lt(l.o, st.next), lt(q.o, st.next), lt(self.o.o, st.next), eq(q.f, 0), eq(l.f, 0))

    def prove(self, eng, st, what):
        q, l = st.rdptr(self.o.o, OSEQ), st.rdptr(self.o.o, OIGNORE)
        return eng.prove(st, self.f(st), what) and SeqOk('', q).prove(eng, st, what) and (not self.ignore or ListInv('', l).prove(eng, st, what))


def protected(st, p, sf, eng):
    """the text at p is "." or ".." """
    c = [st.rdq('i8', p.o, add(p.f, k)) for k in (0, 1)]
    return And(eq(c[0], 46), Or(eq(sf.n, 1), And(eq(sf.n, 2), eq(c[1], 46))))


@spec
class ParseFile(FnSpec):
    name = 'parse_file'
    props = FSALL

    def requires(self, eng, st, args):
        if eng.spec is self:
            self.n, self.val = fresh('n'), fresh('sv')
            return [Str('the path is a string', args[0], self.n, self.val), OptionsOk('options', args[1])]
        return [IsStr('the path is a string', args[0]), OptionsOk('the options are set up', args[1])]

    def modifies(self, eng, st, args):
        return [COUNTER_WRITES]

    def begin(self, eng, st, args, fn):
        p, o = args
        self.seq = find_fact(eng, st, 'seq', st.rdptr(o.o, OSEQ).o).view
        self.dry = st.rd('i32', o.o, DRY)
        self.sep, self.sepat = z3.Bool(fresh_name('separator')), fresh('sepat')
        # the last component starts at B
        B = self.B = fresh('base')
        m = st.mem['i8']
        c = lambda i: read(m, p.o, add(p.f, i), eng, None)
        st.assume(And(le(0, B), le(B, self.n)), Imp(lt(0, B), eq(c(sub(B, 1)), 47)))
        All('component', 'i8', p.o, p.f, 1, B, self.n, lambda k: ne(c(k), 47), mems=[m], through=True).assume(eng, st)
        b = Ptr(p.o, add(p.f, B))
        self.char = c
        self.old = eng.suffix_val(self.val, B)
        st.assume(Imp(eq(B, 0), eq(self.old, self.val)))
        self.comp = b
        self.complen = sub(self.n, B)
        c0, c1 = c(B), c(add(B, 1))
        self.prot = And(eq(c0, 46), Or(eq(self.complen, 1), And(eq(self.complen, 2), eq(c1, 46))))

    def cleaned(self):
        return self.seq.clean(self.old)

    # ------------------------------------------------ what a new name must look like
    def on_cleaned(self, eng, st, r, sf):
        """whether a cleaned name contains a separator, and where"""
        m, f = st.mem['i8'], r.f
        ch = lambda k: read(m, r.o, add(f, k), eng, None)
        g = eq(sf.val, self.cleaned())
        w = self.sepat
        st.assume(Imp(And(g, self.sep), And(le(0, w), lt(w, sf.n), eq(ch(w), 47))))
        All('separator', 'i8', r.o, f, 1, 0, sf.n, lambda k: Imp(eq(ch(k), 47), self.sep), mems=[m], guard=g).assume(eng, st)

    def tail(self, eng, v):
        return ite(eq(self.B, 0), v, eng.suffix_val(v, self.B))

    def is_new(self, eng, p, sf):
        """the path p consists of the directory part of the one given and the cleaned name"""
        k = fresh('k')
        return And(le(self.B, sf.n), eq(self.tail(eng, sf.val), self.cleaned()),
                   Imp(And(le(0, k), lt(k, self.B)), eq(read(sf.mem, p.o, add(p.f, k), eng, None), self.char(k))))

    def new_name(self, eng, st, p, sf, ins):
        """obligations on a new path"""
        k = fresh('k')
        ch = lambda i: read(sf.mem, p.o, add(p.f, i), eng, None)
        O = lambda g, n: eng.oblige(st, g, 'rename: ' + n, ins, props=['C04'])
        O(Imp(And(le(0, k), lt(k, self.B)), eq(ch(k), self.char(k))), 'the directory part stays the same')
        O(le(self.B, sf.n), 'the new path is at least the directory part')
        O(eq(self.tail(eng, sf.val), self.cleaned()), 'the new last component is the cleaned name')
        O(Imp(And(le(self.B, k), lt(k, sf.n)), ne(ch(k), 47)), 'the new last component contains no directory separator')
        O(Not(self.prot), '"." and ".." are never renamed')
        O(ne(self.old, self.cleaned()), 'nothing is renamed to its own name')

    def same(self, eng, st, p, sf):
        """the path p is the one that was given"""
        return eq(sf.val, self.val)

    def on_rename(self, eng, st, a, x, b, y, ins):
        eng.oblige(st, eq(st.rd('i32', eng.args[1].o, DRY), 0), 'no rename in a dry run', ins, props=['C03'])
        eng.oblige(st, self.same(eng, st, a, x), 'the entry renamed is the one given', ins, props=['C04', 'C05'])
        self.new_name(eng, st, b, y, ins)
        eng.oblige(st, z3.BoolVal(not any(happened(e, ('rename',)) for e in st.events)), 'one rename at most', ins, props=['C02', 'C04'])
        # the new name was examined just before, and was free or the very same file
        news = [e for e in st.events if e[0] == 'lstat']
        alts = []
        for e in news:
            free = e[3] == -1
            same = []
            for f in news:
                if f is not e and f[3] == 0 and e[3] == 0:
                    same.append(And(eq(f[2].val, x.val), eq(f[4].dev, e[4].dev), eq(f[4].ino, e[4].ino), Or(link1(f[4].nlink), link1(e[4].nlink))))
            alts.append(And(eq(e[2].val, y.val), Or(free, *same)))
        if any(happened(e, ('lstat', 'rename')) and e[0] == 'loop' for e in st.events):
            alts = []
        eng.oblige(st, Or(*alts) if alts else z3.BoolVal(False), 'the new name was found free, or to be the same file with a single link', ins, props=['C02'])

    # ------------------------------------------------ returning
    def excuse(self, eng, s, sure=False):
        """reasons to leave the entry alone (sure: a file with more than one link by both counts)"""
        several = (lambda a, b: Not(Or(a, b))) if sure else (lambda a, b: Not(And(a, b)))
        ev = [e for e in s.events if e[0] == 'lstat']
        ex = [self.prot, eq(self.old, self.cleaned()), self.sep]
        for e in ev:
            if e[3] == -1:
                ex.append(eq(e[2].val, self.val))
            else:
                for f in ev:
                    if f is not e and f[3] == 0:
                        # e: new, f: old
                        ex.append(And(eq(f[2].val, self.val), self.is_new(eng, e[1], e[2]),
                                      Or(ne(f[4].dev, e[4].dev), ne(f[4].ino, e[4].ino), several(link1(f[4].nlink), link1(e[4].nlink)))))
        return Or(*ex)

    def at_return(self, eng, pre, s, args, r, ins):
        ren = [e for e in s.events if happened(e, ('rename',))]
        done = [e for e in ren if e[0] == 'loop' or e[5] == 0]
        sf = eng.find_str(s, r)
        O = lambda g, n, pr: eng.oblige(s, g if not isinstance(g, bool) else z3.BoolVal(g), n, ins, props=pr)
        if sf is None:
            O(False, 'a path is handed back', ['C04', 'C05'])
            return
        if done:
            O(done[-1][0] == 'rename' and eq(sf.val, done[-1][4].val), 'the path handed back is the new one after a rename', ['C04', 'C05'])
        else:
            O(eq(sf.val, self.val), 'the path handed back is the old one without a rename', ['C04', 'C05'])
        O(not any(e[0] == 'loop' and happened(e, ('out',)) for e in s.events), 'at most one pair of names is printed', ['C03'])
        outs = [e for e in s.events if e[0] == 'out' and stream_name(eng, s, e[1]) == 'stdout']
        pairs = []
        for e in outs:
            sg = e[2] or []
            strs = [x for x in sg if x[3][0] == 'str']
            lits = [x[3][1] for x in sg if x[3][0] == 'lit']
            if len(sg) == 4 and len(strs) == 2 and lits == [b' -> ', b'\n'] and sg[0] is strs[0] and sg[2] is strs[1] and strs[0][3][3] is None and strs[1][3][3] is None:
                pairs.append((e, strs[0][3], strs[1][3]))
        if not ren:
            ex = self.excuse(eng, s)
            dry = ne(self.dry, 0)
            O(Or(ex, And(dry, len(pairs) == 1)), 'the entry is renamed unless there is a reason not to (dry run: the pair is printed)', ['C03', 'C05'])
        if not ren and outs:
            O(Imp(ne(self.dry, 0), Not(self.excuse(eng, s, True))), 'a dry run prints no pair the real run would not use', ['C03'])
            O(len(pairs) == len(outs) == 1, 'what is printed is the pair of names', ['C03'])
        for e, a, b in pairs:
            if not ren:
                t = s.copy()
                t.assume(ne(self.dry, 0))
                if t.feasible():
                    eng.oblige(t, eq(a[2].val, self.val), 'the first name printed is the one given', ins, props=['C03'])
                    eng.oblige(t, self.is_new(eng, b[1], b[2]), 'the second name printed is the one the rename would use', ins, props=['C03'])

    def on_exit(self, eng, st, code, ins):
        eng.oblige(st, z3.BoolVal(any(e[0] in ('malloc', 'strdup') and e[-1] is NULL for e in st.events)), 'processing stops only when out of memory', ins, props=['C05'], assume=False)

    def cases(self, eng, pre, args):
        if eng.spec is not self:
            return []
        return [Case('a path', lambda s, r: ne(r.o, 0), lambda s, r: [Fresh('the path handed back is a new block', r, pre), IsStr('it is a string', r)])]

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        for c in self.requires(eng, st, args):
            eng.oblige(st, c, '%s: requires %s' % (self.name, c.name), ins)
        sf = eng.find_str(st, args[0])
        pre = st.copy()
        st.havoc(COUNTER_WRITES)
        st.assume(eng.new_next(st))
        r = fresh_ptr(eng, pre, st, args)
        Fresh('', r, pre).assume(eng, st)
        st.assume(eq(role(r.o), 0))
        rf = eng.assume_str(st, r, fresh('len'))
        st.events += (('parse_file', args[0], sf, r, rf, args[1]),)
        return [(st, r)]


def link1(x):
    """an unsigned count of at most one"""
    return And(le(0, x), le(x, 1))


# ---------------------------------------------------------------- one thing after the other
NONE, PENDING, ENDED = 0, 1, 2


class Pending:
    """for functions that take things from a source, one at a time, and have to deal with each before the next is taken.
    Ghost state: what was taken last (dent), whether there is one (dstate), whether it was dealt with in an earlier
    iteration of a loop (dsettled)"""
    KINDS = ()          # the events that count as dealing with something
    SOURCE = ()         # the events that take

    def pend_begin(self, st):
        st.ghost['dstate'], st.ghost['dsettled'], st.ghost['dent'] = NONE, 1, NULL

    def fresh_ghost(self, eng, st, g):
        if g == 'dent':
            return eng.fresh_val(st, ('ptr',), 'dent')
        return fresh(g)

    def taken(self, eng, st, p):
        null = isinstance(p.o, int) and p.o == 0
        st.ghost['dent'] = p
        st.ghost['dstate'] = ENDED if null else PENDING
        st.ghost['dsettled'] = 0

    def since(self, st):
        """the events since the last taking (None: not known)"""
        out = []
        for e in reversed(st.events):
            if e[0] == 'loop' and happened(e, self.KINDS + self.SOURCE):
                return out[::-1] if happened(e, self.SOURCE) else None
            if e[0] in self.SOURCE:
                return out[::-1]
            if e[0] in self.KINDS:
                out.append(e)
        return out[::-1]

    def others(self, st, kinds):
        """events of other kinds since the last taking, as far as they are known"""
        out = []
        for e in reversed(st.events):
            if e[0] in self.SOURCE or e[0] == 'loop' and happened(e, self.KINDS + self.SOURCE):
                break
            if e[0] in kinds:
                out.append(e)
        return out[::-1]

    def check(self, eng, st):
        """[(name, formula, props)]: what was taken last has been dealt with as it should"""
        evs = self.since(st)
        done = st.ghost['dsettled']
        if evs is None or not isinstance(done, int):
            return [('each thing is dealt with before the next one is taken', z3.BoolVal(False), None)]
        if done:
            return [('nothing is dealt with twice', z3.BoolVal(not evs), None)]
        return self.dealt(eng, st, st.ghost['dent'], evs)

    def settle(self, eng, st, ins):
        """obligations when the next one is taken, or on leaving"""
        s = st.ghost['dstate']
        evs = self.since(st)
        t = st.copy()
        t.assume(ne(s, PENDING))
        if t.feasible():
            self.oblige_props(eng, t, [('nothing is dealt with that was not taken', z3.BoolVal(evs is not None and not evs), None)], ins)
        t = st.copy()
        t.assume(eq(s, PENDING))
        if t.feasible():
            self.oblige_props(eng, t, self.check(eng, t), ins)

    def oblige_props(self, eng, t, obs, ins):
        for n, g, pr in obs:
            eng.oblige(t, g if not isinstance(g, bool) else z3.BoolVal(g), n, ins, props=pr or self.main_props, assume=False)

    def pend_cands(self, v):
        out = []
        g = lambda w, n: w.st.ghost[n]
        for n in v.ptrs():
            out.append(Cand('%s was taken last' % n, lambda w, n=n: And(eq(g(w, 'dent').o, w.phi[n].o), eq(g(w, 'dent').f, w.phi[n].f),
                                                                       eq(g(w, 'dstate'), ite(eq(w.phi[n].o, 0), ENDED, PENDING)))))
            out.append(Cand('%s is what a source yields' % n, lambda w, n=n: self.Item(self, w.phi[n])))
        for k in (NONE, PENDING, ENDED):
            out.append(Cand('state is not %d' % k, lambda w, k=k: ne(g(w, 'dstate'), k)))
        out.append(Cand('something was taken', lambda w: Imp(eq(g(w, 'dstate'), PENDING), ne(g(w, 'dent').o, 0))))
        out.append(Cand('what was taken last is what a source yields', lambda w: self.Item(self, g(w, 'dent'), eq(g(w, 'dstate'), PENDING))))
        out.append(Cand('what was taken last is settled', lambda w: Settled(self, 1)))
        out.append(Cand('what was taken last is untouched', lambda w: Settled(self, 0)))
        return out


class Settled(Clause):
    def __init__(self, sp, want):
        self.sp, self.want, self.name, self.props = sp, want, 'settled', None

    def assume(self, eng, st):
        if not isinstance(st.ghost['dsettled'], int):
            st.ghost['dsettled'] = self.want

    def prove(self, eng, st, what):
        t = st.copy()
        t.assume(eq(t.ghost['dstate'], PENDING))
        if not t.feasible():
            return True
        if self.want:
            return all(eng.holds(t, g) if not isinstance(g, bool) else g for _, g, _ in self.sp.check(eng, t))
        return self.sp.since(t) == [] and isinstance(t.ghost['dsettled'], int) and t.ghost['dsettled'] == 0


class Entry(Clause):
    """a directory entry"""
    def __init__(self, sp, p, guard=True):
        self.p, self.guard, self.name, self.props = p, guard, 'entry', None

    def f(self, st):
        p = self.p
        return And(eq(p.f, 0), eq(role(p.o), STREAM), eq(st.kind(p.o), 2), le(DIRENT, st.size(p.o)))

    def g(self):
        return And(self.guard, ne(self.p.o, 0))

    def assume(self, eng, st):
        st.assume(Imp(self.g(), self.f(st)))
        t = st.copy()
        t.assume(self.g())
        if not t.feasible():
            return
        sf = eng.find_str(t, Ptr(self.p.o, add(self.p.f, NAMEOFF)))
        if sf is not None:
            st.assume(Imp(self.g(), And(le(1, sf.n), le(sf.n, 255))))
            return
        n = fresh('namelen')
        st.assume(Imp(self.g(), And(le(1, n), le(n, 255))))
        eng.assume_str_if(st, self.g(), Ptr(self.p.o, add(self.p.f, NAMEOFF)), n, fresh('sv'))

    def prove(self, eng, st, what):
        t = st.copy()
        t.assume(self.g())
        if not t.feasible():
            return True
        if not eng.holds(t, self.f(t)):
            return False
        sf = eng.find_str(t, Ptr(self.p.o, NAMEOFF))
        return sf is not None and eng.holds(t, And(le(1, sf.n), le(sf.n, 255)))


@spec
class ParseDir(Pending, FnSpec):
    name = 'parse_dir'
    props = FSALL
    main_props = ['C05']
    KINDS = ('lstat', 'stat', 'parse_file', 'parse_dir', 'opendir', 'rename', 'closedir')
    SOURCE = ('readdir',)
    Item = Entry
    begun = False

    def requires(self, eng, st, args):
        if eng.spec is self and not self.begun:
            self.n, self.val = fresh('n'), fresh('sv')
            return [Str('the path is a string', args[0], self.n, self.val), OptionsOk('options', args[1])]
        return [IsStr('the path is a string', args[0]), OptionsOk('the options are set up', args[1])]

    def modifies(self, eng, st, args):
        l = st.rdptr(args[1].o, OIGNORE)
        return [COUNTER_WRITES, ('cell', 'i32', l.o, PTR)]

    def begin(self, eng, st, args, fn):
        p, o = args
        self.pend_begin(st)
        self.begun = True
        m = st.mem['i8']
        self.char = lambda i: read(m, p.o, add(p.f, i), eng, None)
        self.ign = st.rdptr(o.o, OIGNORE)
        self.ignored = find_list(eng, st, self.ign).view
        self.recurse, self.special = ne(st.rd('i32', o.o, RECURSE), 0), ne(st.rd('i32', o.o, SPECIAL), 0)

    def must_terminate(self, fn, header):
        return False      # the directory stream decides

    # ---------------- one entry
    def skipped(self, eng, st, sf):
        """the entry must be left alone"""
        hidden = eq(read(sf.mem, sf.o, sf.f, eng, None), 46)
        v = self.ignored
        pos = st.rd('i32', self.ign.o, PTR)
        near = [And(le(0, k), lt(k, v.count), eq(v.val(k), sf.val)) for k in (sub(pos, 1), sub(pos, 2), sub(v.count, 1))]
        return Or(hidden, *[eq(v.val(e[2]), sf.val) for e in self.others(st, ('entry',))] + near)

    def wanted(self, eng, st, sf):
        """the entry must not be left alone"""
        k = fresh('k')
        return And(ne(read(sf.mem, sf.o, sf.f, eng, None), 46), Imp(And(le(0, k), lt(k, self.ignored.count)), ne(self.ignored.val(k), sf.val)))

    def path(self, eng, p, sf, nm):
        """the string is the directory path, a separator, the name of the entry"""
        k, j = fresh('k'), fresh('j')
        n = self.n
        c = lambda i: read(sf.mem, p.o, add(p.f, i), eng, None)
        return And(eq(sf.n, add(add(n, 1), nm.n)), Imp(And(le(0, k), lt(k, n)), eq(c(k), self.char(k))), eq(c(n), 47),
                   Imp(And(le(0, j), lt(j, nm.n)), eq(c(add(add(n, 1), j)), read(nm.mem, nm.o, add(nm.f, j), eng, None))))

    def dealt(self, eng, st, p, evs):
        nm = eng.find_str(st, Ptr(p.o, add(p.f, NAMEOFF)))
        if nm is None:
            return [('the entry taken last is known', z3.BoolVal(False), None)]
        if not evs:
            return [('an entry is left alone only if hidden or ignored', self.skipped(eng, st, nm), None)]
        out = [('hidden and ignored entries are left alone', self.wanted(eng, st, nm), None)]
        kinds = [e[0] for e in evs]
        if kinds[0] != 'lstat':
            return [('an entry is examined first, without following links', z3.BoolVal(False), None)]
        if kinds[1:] not in ([], ['parse_file'], ['parse_file', 'parse_dir']):
            return [('an entry is examined, cleaned, then entered', z3.BoolVal(False), None)]
        ex = evs[0]
        out.append(('the entry examined is the one taken', self.path(eng, ex[1], ex[2], nm), None))
        isdir, isreg = is_mode(eng, st, ex[4].mode, DIRMODE), is_mode(eng, st, ex[4].mode, REGMODE)
        ok = ex[3] == 0
        if kinds[1:]:
            pf = evs[1]
            out.append(('the entry cleaned is the one taken', Or(eq(pf[2].val, ex[2].val), self.path(eng, pf[1], pf[2], nm)) if pf[2] is not None else z3.BoolVal(False), None))
            out.append(('the entry is cleaned with the options given', eq(pf[5].o, eng.args[1].o), None))
        if kinds[2:]:
            pd = evs[2]
            out.append(('a directory is entered under its resulting name', eq(pd[2].val, evs[1][4].val) if pd[2] is not None else z3.BoolVal(False), None))
            out.append(('a directory is entered with the options given', eq(pd[3].o, eng.args[1].o), None))
        if ok:
            touch = Or(isdir, isreg, self.special)
            if not kinds[1:]:
                out.append(('links and special files only are left alone', Not(touch), None))
            else:
                out.append(('links and special files are left alone', touch, None))
            into = And(isdir, self.recurse)
            if kinds[1:]:
                out.append(('directories are entered exactly when recursion is on', into if kinds[2:] else Not(into), None))
        return out

    # ---------------- hooks
    def on_opendir(self, eng, st, ins):
        e = st.events[-1]
        seen = [x for x in st.events if x[0] == 'lstat' and x[3] == 0]
        eng.oblige(st, eq(e[2].val, self.val), 'the directory opened is the one given', ins, props=['C05'])
        eng.oblige(st, Or(*[And(eq(x[2].val, self.val), is_mode(eng, st, x[4].mode, DIRMODE)) for x in seen]) if seen else z3.BoolVal(False),
                   'a directory is opened only after it was found not to be a link', ins, props=['C05'])
        eng.oblige(st, z3.BoolVal(sum(happened(x, ('opendir',)) for x in st.events) == 1), 'the directory is opened once', ins, props=['C05'])

    def on_readdir(self, eng, st, d, ins):
        op = [x for x in st.events if x[0] == 'opendir']
        eng.oblige(st, Or(*[And(eq(x[3].o, d.o), ne(d.o, 0)) for x in op]) if op else z3.BoolVal(False), 'the entries are read from the directory opened', ins, props=['C05'])
        if not any(happened(e, ('readdir',)) for e in st.events):
            return
        self.settle(eng, st, ins)

    def after_readdir(self, eng, st, d, r, ins):
        self.taken(eng, st, r)

    def candidates(self, v):
        def inrange(w):
            pos = w.st.rd('i32', self.ign.o, PTR)
            return And(le(0, pos), le(pos, self.ignored.count))
        return [Cand('the position in the list of ignored names is in range', inrange)] + self.pend_cands(v) + [
            Cand('the ignored names up to the position differ', lambda w: Scanned(self, w))] + self.ahead_cands(v)

    def ahead_cands(self, v):
        """loops that hold the next ignored name (n) and a note (f) of whether the one before it was equal"""
        out = []
        for n in v.ptrs():
            out.append(Cand('%s is the ignored name before the position' % n, lambda w, n=n: Ahead(self, w, n)))
            out.append(Cand('the ignored names before %s differ' % n, lambda w, n=n: Scanned(self, w, n)))
            for f in v.ints():
                for t in (True, False):
                    flag = lambda w, f=f, t=t: ne(w.phi[f], 0) if t else eq(w.phi[f], 0)
                    out.append(Cand('the ignored names before %s differ unless %s is %s' % (n, f, t), lambda w, n=n, flag=flag: Scanned(self, w, n, Not(flag(w)))))
                    out.append(Cand('the ignored name before %s is equal if %s is %s' % (n, f, t), lambda w, n=n, flag=flag: Found(self, w, n, flag(w))))
        return out

    def at_return(self, eng, pre, s, args, r, ins):
        op = [x for x in s.events if x[0] == 'opendir']
        if not op:
            ex = [x for x in s.events if x[0] == 'lstat']
            O = Or(*[And(eq(x[2].val, self.val), z3.BoolVal(True) if x[3] == -1 else Not(is_mode(eng, s, x[4].mode, DIRMODE))) for x in ex]) if ex else z3.BoolVal(False)
            eng.oblige(s, O, 'only a directory is read', ins, props=['C05'])
            return
        if op[-1][3] is NULL:
            eng.oblige(s, z3.BoolVal(not any(happened(e, self.KINDS + self.SOURCE) for e in s.events[s.events.index(op[-1]) + 1:])), 'nothing happens in a directory that cannot be opened', ins, props=['C05'])
            return
        eng.oblige(s, eq(s.ghost['dstate'], ENDED), 'all entries of the directory are considered', ins, props=['C05'])
        evs = self.since(s)
        eng.oblige(s, z3.BoolVal(evs is not None and all(e[0] == 'closedir' for e in evs)), 'nothing happens after the last entry', ins, props=['C05'])

    def on_exit(self, eng, st, code, ins):
        ok = any(e[0] in ('malloc', 'strdup') and e[-1] is NULL for e in st.events) or any(e[0] == 'opendir' and e[3] is NULL for e in st.events)
        eng.oblige(st, z3.BoolVal(ok), 'processing stops only when out of memory or directory handles', ins, props=['C05'], assume=False)

    def cases(self, eng, pre, args):
        return []

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        for c in self.requires(eng, st, args):
            eng.oblige(st, c, '%s: requires %s' % (self.name, c.name), ins)
        sf = eng.find_str(st, args[0])
        for d in self.modifies(eng, st, args):
            st.havoc(d)
        l = st.rdptr(args[1].o, OIGNORE)
        f = find_list(eng, st, l)
        pos = st.rd('i32', l.o, PTR)
        st.assume(And(le(0, pos), le(pos, f.view.count)) if f is not None else True)
        st.assume(eng.new_next(st))
        st.events += (('parse_dir', args[0], sf, args[1]),)
        return [(st, None)]


class Scanned(Clause):
    """the name of the entry taken last differs from those the list has yielded so far"""
    def __init__(self, sp, w, n=None, guard=True):
        self.sp, self.w, self.n, self.guard, self.name, self.props = sp, w, n, guard, 'scanned', None

    def taken(self, eng, st):
        d = st.ghost['dent']
        return eng.find_str(st, Ptr(d.o, add(d.f, NAMEOFF))) if not (isinstance(d.o, int) and d.o == 0) else None

    def cl(self, eng, st):
        sp = self.sp
        v = sp.ignored
        sf = self.taken(eng, st)
        if sf is None:
            return None
        pos = st.rd('i32', sp.ign.o, PTR)
        if self.n is not None:
            pos = ite(eq(self.w.phi[self.n].o, 0), v.count, sub(pos, 1))
        return UFAll('scanned', v.IV.name(), lambda k: Imp(And(self.guard, le(0, k), lt(k, pos)), ne(v.val(k), sf.val)), 1)

    def assume(self, eng, st):
        c = self.cl(eng, st)
        if c is not None:
            c.assume(eng, st)

    def prove(self, eng, st, what):
        c = self.cl(eng, st)
        return c is not None and c.prove(eng, st, what)


class Found(Scanned):
    """the name of the entry taken last is the one the list yielded before the last"""
    def cl(self, eng, st):
        v = self.sp.ignored
        sf = self.taken(eng, st)
        if sf is None:
            return None
        pos = st.rd('i32', self.sp.ign.o, PTR)
        k = ite(eq(self.w.phi[self.n].o, 0), sub(v.count, 1), sub(pos, 2))
        return F('found', Imp(self.guard, And(le(0, k), lt(k, v.count), eq(v.val(k), sf.val))))


class Ahead(Clause):
    """a pointer is NULL or what the list of ignored names yielded last"""
    def __init__(self, sp, w, n):
        self.sp, self.w, self.n, self.name, self.props = sp, w, n, 'ahead', None

    def parts(self, eng, st):
        v, p = self.sp.ignored, self.w.phi[self.n]
        pos = st.rd('i32', self.sp.ign.o, PTR)
        k = sub(pos, 1)
        return p, v, k, And(le(0, k), lt(k, v.count), eq(p.o, v.obj(k)), eq(p.f, 0))

    def assume(self, eng, st):
        p, v, k, f = self.parts(eng, st)
        g = ne(p.o, 0)
        st.assume(Imp(g, f))
        eng.assume_str_if(st, g, p, v.len(k), v.val(k))

    def prove(self, eng, st, what):
        p, v, k, f = self.parts(eng, st)
        t = st.copy()
        t.assume(ne(p.o, 0))
        if not t.feasible():
            return True
        if not eng.holds(t, f):
            return False
        sf = eng.find_str(t, p)
        return sf is not None and eng.holds(t, And(eq(sf.n, v.len(k)), eq(sf.val, v.val(k))))


@spec
class ParseInline(FnSpec):
    """The stream is a function from positions to bytes.  Ghosts: rp the position, a the start of the piece being worked on,
    stage (0 nothing read, 1 read, 2 its text was written), need (its newline is to be written), end, eof (no more bytes
    follow), ran/pv/pb (the filters were run on the piece: its text, the position then)."""
    name = 'parse_inline'
    props = ('C19',)
    variants = tuple(' '.join((t, i, o)) for t in ('text', 'any') for i in ('file', 'stdin') for o in ('file', 'stdout'))
    unroll = 8
    unroll_states = 4000
    record_rounds = True
    GHOSTS = dict(rp=0, a=0, stage=0, need=0, end=0, eof=0, ran=0, pv=0, pb=0, last=0)
    LEAST = 1000            # bytes a piece without a newline has, unless the stream ends

    def requires(self, eng, st, args):
        if eng.spec is self:
            return [OptionsOk('options', args[2], ignore=False)]
        return [Either('the input name is NULL or a string', args[0], IsStr('', args[0])), Either('the output name is NULL or a string', args[1], IsStr('', args[1])),
                OptionsOk('the options are set up', args[2], ignore=False)]

    def modifies(self, eng, st, args):
        return [COUNTER_WRITES]

    def must_terminate(self, fn, header):
        return any(h != header and header in fn.loops[h] for h in fn.loops)      # the outer loop ends with the stream

    def vary(self, eng, st, args, variant):
        """any content or no zero bytes; files named or the standard streams"""
        _, i, o = variant.split()
        return [args[0] if i == 'file' else NULL, args[1] if o == 'file' else NULL, args[2]]

    def begin(self, eng, st, args, fn):
        self.text = self.variant.startswith('text')
        self.names = [(fresh('n'), fresh('sv')) for _ in (0, 1)]
        for p, (n, v) in zip(args, self.names):
            if p is not NULL:
                eng.assume_str(st, p, n, v)
        self.IN = z3.Function(fresh_name('stream'), IntS, IntS)
        lo = 1 if self.text else 0
        UFAll('bytes', self.IN.name(), lambda i: And(le(lo, self.at(i)), le(self.at(i), 255)), 1).assume(eng, st)
        st.ghost.update(self.GHOSTS)
        self.seq = find_fact(eng, st, 'seq', st.rdptr(args[2].o, OSEQ).o).view
        self.args = args

    def at(self, i):
        return atom(self.IN(z(i)))

    def stream(self, st):
        return self.IN

    # ---------------- what is opened, read and written
    def target(self, eng, st, which):
        """the stream to read from (0) or write to (1); None when the file was not opened"""
        p = self.args[which]
        opened = [e for e in st.events if e[0] == 'fopen' and e[3] is not None and e[3][:1] == b'rw'[which:which + 1]]
        if opened:
            return opened[-1][4]
        return st.rdptrq(eng.glob(('stdin', 'stdout')[which]), 0)

    def on_fopen(self, eng, st, p, sf, mode, r, ins):
        which = 0 if mode is not None and mode[:1] == b'r' else 1
        eng.oblige(st, z3.BoolVal(mode in ((b'r', b'rb'), (b'w', b'wb'))[which]), 'files are opened to read or write them', ins, props=['C19'])
        eng.oblige(st, eq(sf.val, self.names[which][1]), 'the file opened is the one named', ins, props=['C19'])

    def on_read(self, eng, st, f, ins):
        g = st.ghost
        t = self.target(eng, st, 0)
        O = lambda c, n: eng.oblige(st, c, n, ins, props=['C19'])
        O(And(eq(f.o, t.o), eq(f.f, t.f)), 'the stream read is the one asked for')
        if self.text:
            O(eq(g['ran'], 0), 'a piece is complete when the filters are run on it')
        s = g['stage']
        if isinstance(s, int) and s == 1:
            return
        O(Or(eq(s, 0), eq(s, 2)), 'reading starts the next piece after the last one was written')
        if self.text:
            O(eq(g['need'], 0), 'the newline of a piece is written before the next piece is read')
        g.update(a=g['rp'], stage=1, eof=0, ran=0)

    def on_run(self, eng, st, args):
        g = st.ghost
        if args[1] is NULL or eng.holds(st, eq(args[1].o, 0)):
            return
        sf = eng.find_str(st, args[1])
        if sf is None:
            return
        self.is_piece(eng, st, args[1], sf, 'the filters are run on the piece', None)
        g.update(ran=1, pv=sf.val, pb=g['rp'])

    def shape(self, g):
        """ends with a newline; length of the text"""
        nl = eq(self.at(sub(g['rp'], 1)), 10)
        n = sub(g['rp'], g['a'])
        return nl, n, ite(nl, sub(n, 1), n)

    def is_piece(self, eng, st, p, sf, what, ins):
        if not self.text:
            return
        g = st.ghost
        k = fresh('k')
        nl, _, n = self.shape(g)
        eng.oblige(st, eq(g['stage'], 1), what + ' after it was read', ins, props=['C19'])
        eng.oblige(st, eq(sf.n, n), what + ': all of it', ins, props=['C19'])
        eng.oblige(st, Imp(And(le(0, k), lt(k, n)), eq(read(st.mem['i8'], p.o, add(p.f, k), eng, None), self.at(add(g['a'], k)))), what + ': its bytes', ins, props=['C19'])

    def boundary(self, eng, st, ins):
        g = st.ghost
        O = lambda c, n: eng.oblige(st, c, n, ins, props=['C19'])
        nl, n, _ = self.shape(g)
        b = g['rp']
        more = And(Not(nl), eq(g['eof'], 0))
        k = fresh('k')
        O(lt(0, n), 'a piece is not empty')
        O(Imp(And(le(g['a'], k), lt(k, sub(b, 1))), ne(self.at(k), 10)), 'a newline ends a piece')
        O(Or(Not(more), le(self.LEAST, n)), 'a piece without a newline is cut at the end of the stream or of the buffer')
        cont = lambda i: And(le(128, self.at(i)), lt(self.at(i), 192))
        for d in range(1, 6):
            # a character that starts d bytes before the end and needs more than d bytes
            s = self.at(sub(b, d))
            first = 256 - 2 ** (7 - d)
            O(Imp(And(more, le(d, n), le(first, s), lt(s, 254), *[cont(sub(b, j)) for j in range(1, d)]), Not(cont(b))),
              'a character is not split after %d bytes' % d)

    def on_out(self, eng, st, stream, segs, ins):
        g = st.ghost
        nm = stream_name(eng, st, stream)
        if nm == 'stderr' or not self.text:
            return
        O = lambda c, n: eng.oblige(st, c if not isinstance(c, bool) else z3.BoolVal(c), n, ins, props=['C19'])
        t = self.target(eng, st, 1)
        O(nm == stream_name(eng, st, t) if isinstance(stream, str) else And(eq(stream.o, t.o), eq(stream.f, t.f)), 'the stream written is the one asked for')
        for s in segs or []:
            d = s[3]
            if d[0] == 'str' and st.const_str(d[1]) in (b'', b'\n'):
                d = ('lit', st.const_str(d[1]))
                if not d[1]:
                    continue
            if d[0] == 'lit' or d[0] == 'chr':
                O(eq(d[1], 10) if d[0] == 'chr' else d[1] == b'\n', 'only newlines are added')
                O(And(eq(g['stage'], 2), eq(g['need'], 1)), 'a newline is written after the text of a piece that has one')
                g['need'] = 0
            elif d[0] == 'str' and d[3] is None:
                nl, n, tn = self.shape(g)
                self.boundary(eng, st, ins)
                dots = And(eq(self.at(g['a']), 46), Or(eq(tn, 1), And(eq(tn, 2), eq(self.at(add(g['a'], 1)), 46))))
                for s2, c in zip(fork(st, dots, Not(dots)), (1, 0)):
                    if s2 is None:
                        continue
                    if c:
                        self.is_piece(eng, s2, d[1], d[2], '"." and ".." are written unchanged', ins)
                    else:
                        eng.oblige(s2, And(eq(g['ran'], 1), eq(g['pb'], g['rp']), eq(d[2].val, self.seq.clean(g['pv']))), 'the cleaned piece is written', ins, props=['C19'])
                O(eq(g['stage'], 1), 'a piece is written once')
                g.update(stage=2, need=ite(nl, 1, 0), ran=0)
            else:
                O(False, 'what is written is the text of a piece')

    def candidates(self, v):
        out = [Cand('the last piece is settled', lambda w: And(Or(eq(w.st.ghost['stage'], 0), eq(w.st.ghost['stage'], 2)), eq(w.st.ghost['ran'], 0))),
               Cand('no newline is due', lambda w: eq(w.st.ghost['need'], 0)),
               Cand('the stream has not ended', lambda w: eq(w.st.ghost['end'], 0)),
               Cand('the position', lambda w: le(0, w.st.ghost['rp']))]
        opened = [e[4] for e in v.entry.events if e[0] == 'fopen' and e[4] is not NULL]
        out += [Cand('stream %d stays open' % i, lambda w, p=p: eq(w.st.kind(p.o), OPEN)) for i, p in enumerate(opened)]
        for e in v.entry.events:
            if e[0] == 'malloc' and e[-1] is not NULL:
                out.append(Cand('the buffer stays allocated', lambda w, o=e[-1].o: eq(w.st.kind(o), 1)))
        return out

    def fresh_ghost(self, eng, st, g):
        return fresh(g)

    def at_return(self, eng, pre, st, args, ret, ins):
        g = st.ghost
        failed = [e for e in st.events if e[0] == 'fopen' and e[4] is NULL]
        msg = any(e[0] == 'out' and stream_name(eng, st, e[1]) == 'stderr' for e in st.events)
        O = lambda c, n: eng.oblige(st, c if not isinstance(c, bool) else z3.BoolVal(c), n, ins, props=['C19'])
        if failed:
            O(msg, 'a file that cannot be opened is reported')
            return
        for k in (0, 1):
            opened = any(e[0] == 'fopen' and (e[3] or b'')[:1] == b'rw'[k:k + 1] for e in st.events)
            O(eq(args[k].o, 0) if not opened else ne(args[k].o, 0), 'the named files are used')
        O(eq(g['end'], 1), 'the whole stream is read')
        O(Or(eq(g['stage'], 0), eq(g['stage'], 1) if False else And(eq(g['stage'], 1), eq(g['a'], g['rp'])), eq(g['stage'], 2)), 'every piece read is written')
        O(eq(g['need'], 0), 'every newline is written')

    def on_exit(self, eng, st, code, ins):
        if not any(e[0] in ('malloc', 'strdup') and e[-1] is NULL for e in st.events):
            eng.oblige(st, z3.BoolVal(False), 'the program does not end while there is input', ins, props=['C19'], assume=False)

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        for c in self.requires(eng, st, args):
            eng.oblige(st, c, '%s: requires %s' % (self.name, c.name), ins)
        sf = eng.find_str(st, args[0]) if not eng.holds(st, eq(args[0].o, 0)) else None
        st.havoc(COUNTER_WRITES)
        st.assume(eng.new_next(st))
        st.events += (('parse_inline', args[0], sf, args[1], args[2]),)
        return [(st, None)]
