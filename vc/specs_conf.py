"""Options (C22) and configuration (C23, C24)."""
import z3
import layout
from term import *
import term as T
from engine import *
from contracts import *
import libc_fs
import libc_opt
from specs_filter import Either, stream_name, oom_exit
from specs_list import ListInv, find_list, PTR, COUNT, LIST
from specs_seq import *
from specs_seq import SEQ, FILTER
import libc_io
from specs_file import *
from loops import Cand

SPECS = {}


def spec(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


(CSEQS, CIGNORE, CSIZE) = layout.one('config_file_t')
CONFIG = 42


@spec
class ParseOptions(FnSpec):
    name = 'parse_options_getopt'
    props = ('C22',)
    unroll = 1

    # what the manual says each option does: (field, ghost) or the end of the program
    SETS = {'-n': 'dry', '--dry-run': 'dry', '-r': 'rec', '--recursive': 'rec', '--special': 'special', '--inline': 'inl', '-L': 'list'}
    COUNTS = ('-v', '--verbose')
    NAMES = {'-s': 'seq', '-f': 'conf'}
    STOPS = ('-h', '--help', '-V', '?')

    def requires(self, eng, st, args):
        argc, argv = args
        self.arg0n = fresh('n')
        return [F('argc and argv describe the command line', And(le(1, argc), ne(argv.o, 0), eq(argv.f, 0), eq(st.kind(argv.o), 3), le(scale(add(argc, 1), 8), st.size(argv.o)))),
                Str('the name of the program is a string', st.rdptr(argv.o, 0), self.arg0n)]

    def modifies(self, eng, st, args):
        a0 = st.rdptr(args[1].o, 0)
        g = eng.glob
        return [('obj', 'p', args[1].o), ('range', 'i8', a0.o, a0.f, add(add(a0.f, self.arg0n), 1)), ('cell', 'i32', g('optind'), 0), ('cell', 'p', g('optarg'), 0), ('cell', 'i32', g('long_option'), 0)]

    def begin(self, eng, st, args, fn):
        argc, argv = args
        for n, sz in (('optind', 4), ('optarg', 8)):
            st.assume(eq(st.kind(eng.glob(n)), 3), eq(st.size(eng.glob(n)), sz))
        a0 = st.rdptr(argv.o, 0)
        st.assume(ne(a0.o, argv.o), lt(0, a0.o), lt(0, argv.o))
        import libc_opt
        self.cl = libc_opt.CommandLine(eng, st, argc, argv)
        self.cl.arg0 = a0
        # texts the program never writes to are still in place
        for n, gl in eng.M.globals.items():
            if gl['init'] is not None and gl['init'][0] == 'str' and not gl['const']:
                t = gl['init'][1]
                if t.find(0) == len(t) - 1:
                    eng.assume_str(st, Ptr(eng.glob(n), 0), len(t) - 1)
        e = eng.fresh_val(st, ('ptr',), 'env')
        en = fresh('envn')
        self.env = {b'DETOX_SEQUENCE': (z3.Bool(fresh_name('envset')), e, en, fresh('sv'))}
        isset, _, _, v = self.env[b'DETOX_SEQUENCE']
        st.assume(Imp(isset, And(lt(0, e.o), ne(e.o, argv.o), ne(e.o, a0.o))))
        g = st.ghost
        for k in ('dry', 'rec', 'special', 'inl', 'list', 'verbose', 'stop', 'ended', 'conf', 'confval'):
            g[k] = 0
        g['seq'] = g['seqval'] = 0

    def must_terminate(self, fn, header):
        return False      # getopt_long ends with the command line

    def fresh_ghost(self, eng, st, g):
        return fresh(g)

    # ---------------- what getopt_long reports
    def offered(self, eng, st, shorts, longs, ins):
        have = {'-' + c: a for c, a in shorts}
        have.update({'--' + n: a != 0 for n, a, _, _ in longs})
        have.pop('-?', None)
        want = {k: k in self.NAMES for k in list(self.SETS) + list(self.COUNTS) + list(self.NAMES) + [x for x in self.STOPS if x != '?']}
        for k in sorted(set(have) | set(want)):
            eng.oblige(st, z3.BoolVal(k in have and k in want and bool(have[k]) == want[k]), 'option %s is the documented one' % k, ins, props=['C22'])

    def option(self, eng, st, name, p, sf, ins):
        g = st.ghost
        eng.oblige(st, And(eq(g['stop'], 0), eq(g['ended'], 0)), 'help, version and unknown options end the program', ins, props=['C22'])
        if name is None:
            g['ended'] = 1
        elif name in self.SETS:
            g[self.SETS[name]] = 1
        elif name in self.COUNTS:
            st.assume(lt(g['verbose'], 2 ** 31 - 1))
            eng.assumptions['verbosity is asked for fewer than 2^31 times'] = 1
            g['verbose'] = add(g['verbose'], 1)
        elif name in self.NAMES:
            if sf is not None:
                k = self.NAMES[name]
                g[k], g[k + 'val'] = 1, sf.val
        else:
            g['stop'] = 1

    def inline(self, eng, st):
        return Or(ne(st.ghost['inl'], 0), eq(self.cl.prog, eng.const_val(b'inline-detox')))

    FIELDS = ((DRY, 'dry'), (RECURSE, 'rec'), (SPECIAL, 'special'), (LISTSEQ, 'list'), (VERBOSE, 'verbose'))

    def candidates(self, v):
        out = []
        for e in v.entry.events:
            if e[0] != 'malloc' or e[-1] is NULL:
                continue
            o = e[-1].o
            for off, k in self.FIELDS:
                out.append(Cand('field %s is as asked for' % k, lambda w, o=o, off=off, k=k: eq(w.st.rd('i32', o, off), w.st.ghost[k])))
            out.append(Cand('field inline is as asked for', lambda w, o=o: eq(w.st.rd('i32', o, INLINE), ite(self.inline(w.eng, w.st), 1, 0))))
            for off, k in ((OSEQNAME, 'seq'), (OSEQNAME, 'seq or environment'), (OCONF, 'conf')):
                out.append(Cand('name %s is the one asked for' % k, lambda w, o=o, off=off, k=k: Named(self, o, off, k)))
            out.append(Cand('the blocks in use stay allocated', lambda w, o=o: And(eq(w.st.kind(o), 1), eq(w.st.kind(self.cl.argv.o), 3), le(OSIZE, w.st.size(o)))))
            out.append(Cand('the files are the arguments so far', lambda w, o=o: FilesSoFar(self, o)))
            for n in v.ints():
                out.append(Cand('the files are the arguments before %s' % n, lambda w, o=o, n=n: FilesSoFar(self, o, sub(w.phi[n], sub(self.cl.argc, self.cl.n)))))
                out.append(Cand('the files are the first %s arguments' % n, lambda w, o=o, n=n: FilesSoFar(self, o, w.phi[n])))
        for k in ('stop', 'ended'):
            for c in (0, 1):
                out.append(Cand('%s is %d' % (k, c), lambda w, k=k, c=c: eq(w.st.ghost[k], c)))
        for k in ('dry', 'rec', 'special', 'list'):
            out.append(Cand('%s is asked for or not' % k, lambda w, k=k: Or(eq(w.st.ghost[k], 0), eq(w.st.ghost[k], 1))))
        return out

    def at_return(self, eng, pre, s, args, r, ins):
        O = lambda g, n: eng.oblige(s, g if not isinstance(g, bool) else z3.BoolVal(g), n, ins, props=['C22'])
        g = s.ghost
        O(And(eq(g['stop'], 0), eq(g['ended'], 1)), 'all options are considered, and none ended the program')
        eng.oblige(s, Fresh('', r, pre).formula(s), 'the record is a new block', ins)
        eng.oblige(s, le(OSIZE, s.size(r.o)), 'the record is large enough', ins)
        for off, k in self.FIELDS:
            f = s.rd('i32', r.o, off)
            O(eq(f, g[k]) if k == 'verbose' else Iff(ne(f, 0), ne(g[k], 0)), 'option %s is set exactly when asked for' % k)
        O(Iff(ne(s.rd('i32', r.o, INLINE), 0), self.inline(eng, s)), 'inline mode is on exactly when asked for by option or by the name of the program')
        for off, k in ((OSEQNAME, 'seq or environment'), (OCONF, 'conf')):
            eng.oblige(s, Named(self, r.o, off, k), 'the %s name is the one given last' % k, ins, props=['C22'])
        t = s.copy()
        t.assume(eq(g['list'], 0))
        if not t.feasible():
            return
        c = FilesSoFar(self, r.o, self.cl.n)
        eng.oblige(t, c, 'the files are the remaining arguments, in order', ins, assume=False)
        eng.oblige(t, Or(lt(0, self.cl.n), self.inline(eng, t)), 'at least one argument is needed outside inline mode', ins, props=['C22'])

    def on_exit(self, eng, st, code, ins):
        g = st.ghost
        oom = any(e[0] in ('malloc', 'strdup') and e[-1] is NULL for e in st.events)
        eng.oblige(st, Or(oom, ne(g['stop'], 0), And(ne(g['ended'], 0), eq(g['list'], 0), eq(self.cl.n, 0), Not(self.inline(eng, st)))),
                   'the program ends only for help, version, an unknown option or a missing argument', ins, props=['C22'], assume=False)

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        pre = st.copy()
        st.assume(eng.new_next(st))
        r = fresh_ptr(eng, pre, st, args)
        Fresh('', r, pre).assume(eng, st)
        st.assume(eq(role(r.o), OPTIONS), le(OSIZE, st.size(r.o)))
        for off in (OSEQNAME, OCONF):
            p = st.rdptr(r.o, off)
            st.assume(lt(p.o, st.next))
            eng.assume_str_if(st, ne(p.o, 0), p, fresh('len'), fresh('sv'))
        lst = st.rd('i32', r.o, LISTSEQ)
        s1, s2 = fork(st, ne(lst, 0), eq(lst, 0))
        out = []
        if s1 is not None:
            eng.spec.on_options(eng, s1, r, None)
            out.append((s1, r))
        if s2 is not None:
            p = s2.rdptr(r.o, OFILES)
            s2.assume(le(pre.next, p.o), lt(p.o, s2.next), ne(p.o, r.o))
            ListInv('', p).assume(eng, s2)
            v = find_list(eng, s2, p).view
            s2.assume(le(pre.next, v.files.o), eq(v.pos, 0), Or(lt(0, v.count), ne(s2.rd('i32', r.o, INLINE), 0)))
            eng.spec.on_options(eng, s2, r, v)
            out.append((s2, r))
        return out


class Named(Clause):
    """a name in the option record: NULL, or a string with the value given last"""
    def __init__(self, sp, o, off, k):
        self.sp, self.o, self.off, self.k, self.name, self.props = sp, o, off, k, 'name ' + k, ['C22']

    def want(self, st):
        g = st.ghost
        if self.k in g:
            return ne(g[self.k], 0), g[self.k + 'val']
        isset, _, _, v = self.sp.env[b'DETOX_SEQUENCE']
        return Or(ne(g['seq'], 0), isset), ite(ne(g['seq'], 0), g['seqval'], v)

    def assume(self, eng, st):
        p = st.rdptr(self.o, self.off)
        nn, val = self.want(st)
        st.assume(Iff(ne(p.o, 0), nn), Imp(eq(p.o, 0), eq(p.f, 0)))
        eng.assume_str_if(st, ne(p.o, 0), p, fresh('len'), val)

    def prove(self, eng, st, what):
        p = st.rdptr(self.o, self.off)
        nn, val = self.want(st)
        if not eng.prove(st, Iff(ne(p.o, 0), nn), what):
            return False
        t = st.copy()
        t.assume(ne(p.o, 0))
        if not t.feasible():
            return True
        sf = eng.find_str(t, p)
        return sf is not None and eng.prove(t, eq(sf.val, val), what)


class FilesSoFar(Clause):
    """the list of files holds the first arguments, up to the position of getopt"""
    def __init__(self, sp, o, n=None):
        self.sp, self.o, self.n, self.name, self.props = sp, o, n, 'files', ['C22']

    def count(self, eng, st):
        cl = self.sp.cl
        return self.n if self.n is not None else sub(st.rd('i32', eng.glob('optind'), 0), sub(cl.argc, cl.n))

    def facts(self, eng, st, p, v):
        m = eng.pre.next
        return And(eq(st.rd('i32', p.o, PTR), 0), eq(v.count, self.count(eng, st)), le(v.count, self.sp.cl.n), le(m, p.o), ne(p.o, self.o), le(m, v.files.o), ne(v.files.o, self.o))

    def same(self, v):
        return UFAll('same', v.IV.name(), lambda k: Imp(And(le(0, k), lt(k, v.count)), eq(v.val(k), self.sp.cl.val(k))), 1)

    def assume(self, eng, st):
        p = st.rdptr(self.o, OFILES)
        ListInv('', p).assume(eng, st)
        v = find_list(eng, st, p).view
        st.assume(self.facts(eng, st, p, v))
        self.same(v).assume(eng, st)

    def prove(self, eng, st, what):
        p = st.rdptr(self.o, OFILES)
        if isinstance(p.o, int) and p.o == 0 or not ListInv('', p).prove(eng, st, what):
            return False
        v = find_list(eng, st, p).view
        return eng.prove(st, self.facts(eng, st, p, v), what) and self.same(v).prove(eng, st, what)


# ---------------------------------------------------------------- configuration (C24)
def same(a, b):
    return And(eq(a.o, b.o), eq(a.f, b.f))


PARSER = ('current_filename', 'current_name', 'yyin', 'yyout', 'cf_sequence_ret', 'cf_sequence_current', 'cf_filter_ret', 'cf_filter_current', 'files_to_ignore')


def parser_cells(eng):
    """the variables of the configuration parser"""
    return [gcell(eng, n) for n in PARSER if n in eng.M.globals]


_memory = {}


def conf_memory(base):
    """what reading a file may change of a configuration allocated since base"""
    k = key(base)
    if k not in _memory:
        _memory[k] = (base, make_conf_memory(base))
    return _memory[k][1]


def make_conf_memory(base):
    var = lambda o: isinstance(o, int) and o <= 0         # variables of the program
    mine = lambda o, i: False if var(o) else And(le(base, o), Or(*[eq(role(o), r) for r in (CONFIG, SEQ, FILTER, LIST)]))
    count = lambda o, i: False if var(o) else And(le(base, o), eq(role(o), LIST))
    return [('pred', 'p', mine, 'configuration'), ('pred', 'i32', count, 'configuration'), ('pred', 'kind', count, 'configuration')]


class Conf(Clause):
    """a configuration: a record with its list of ignored names, made since base"""
    def __init__(self, name, r, base, props=None, made=False):
        self.name, self.r, self.base, self.props, self.made = name, r, base, props, made       # made: by the function itself (its role is given at the return)

    def f(self, st):
        r = self.r
        l = st.rdptr(r.o, CIGNORE)
        return And(ne(r.o, 0), eq(r.f, 0), True if self.made else eq(role(r.o), CONFIG), le(CSIZE, st.size(r.o)), eq(st.kind(r.o), 1), le(self.base, r.o), lt(r.o, st.next),
                   le(self.base, l.o), lt(l.o, st.next), ne(l.o, r.o), eq(l.f, 0))

    def assume(self, eng, st):
        st.assume(self.f(st))
        l = st.rdptr(self.r.o, CIGNORE)
        ListInv('', l).assume(eng, st)
        st.assume(le(self.base, find_list(eng, st, l).view.files.o))

    def prove(self, eng, st, what):
        if isinstance(self.r.o, int) or not eng.prove(st, self.f(st), what):
            return False
        l = st.rdptr(self.r.o, CIGNORE)
        if not ListInv('', l).prove(eng, st, what):
            return False
        return eng.holds(st, le(self.base, find_list(eng, st, l).view.files.o))


@spec
class Yyparse(FnSpec):
    """the generated parser: runs the actions (cf_append_filter, cf_append_sequence_list, cf_append_ignore_entry) in the order of the file"""
    name = 'yyparse'
    props = ()

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        eng.spec.on_yyparse(eng, st, ins)
        return [(st, eng.fresh_val(st, t, 'yyparse'))]


@spec
class ParseConfigFile(FnSpec):
    name = 'parse_config_file'
    props = ('C24', 'C18')
    variants = ('alone', 'on top')

    def vary(self, eng, st, args, variant):
        return [args[0], NULL, args[2]] if variant == 'alone' else args

    def requires(self, eng, st, args):
        f, prev, opts = args
        if eng.spec is not self:
            return [IsStr('the file name is a string', f)]
        self.sf = (fresh('n'), fresh('sv'))
        self.base = fresh('base')
        r = [Str('the file name is a string', f, *self.sf)]
        if self.variant == 'on top':
            r += [F('some mark', And(lt(0, self.base), le(self.base, st.next))), Conf('the configuration so far', prev, self.base)]
        return r

    def begin(self, eng, st, args, fn):
        f, prev, opts = args
        # the variables of the program do not overlap the blocks of the configuration
        self.chain = self.prevlist = None
        if prev is not NULL:
            self.chain = SeqList(eng, st, st.rdptr(prev.o, CSEQS))
            self.prevlist = st.rdptr(prev.o, CIGNORE)
            self.count = find_list(eng, st, self.prevlist).view.count
        st.ghost['parsed'] = 0
        st.ghost['ret'] = st.ghost['cur'] = st.ghost['files'] = NULL
        st.ghost['in'] = NULL

    def modifies(self, eng, st, args):
        return parser_cells(eng) + (conf_memory(self.base) if self.variant == 'on top' else [])

    def must_terminate(self, fn, header):
        return False

    def fresh_ghost(self, eng, st, g):
        if g == 'parsed':
            return fresh('parsed')
        p = eng.fresh_val(st, ('ptr',), g)
        return p

    def candidates(self, v):
        out = []
        c = self.chain
        if c is not None:
            for n in v.ptrs():
                out.append(Cand('%s walks the sequences' % n, lambda w, n=n: And(c.on(w.phi[n]), lt(c.idx(w.phi[n].o), c.N))))
            for g in ('cf_sequence_current',):
                out.append(Cand('%s walks the sequences' % g, lambda w, g=g: And(c.on(gptr(w.eng, w.st, g)), lt(c.idx(gptr(w.eng, w.st, g).o), c.N))))
        for g, k in (('cf_sequence_ret', 'ret'), ('cf_sequence_current', 'cur'), ('files_to_ignore', 'files'), ('yyin', 'in')):
            out.append(Cand('%s is as the parser left it' % g, lambda w, g=g, k=k: same(gptr(w.eng, w.st, g), w.st.ghost[k])))
        out.append(Cand('the file has been parsed', lambda w: And(le(1, w.st.ghost['parsed']), le(w.st.ghost['parsed'], 2 ** 62))))
        out.append(Cand('the sequences are in place', lambda w: self.sequences_ready(w.eng, w.st)))
        out.append(Cand('the names to ignore are in place', lambda w: self.ignored_ready(w.eng, w.st)))
        out.append(Cand('no filters before the first sequence', lambda w: Or(lt(0, w.st.ghost['parsed']), eq(gptr(w.eng, w.st, 'cf_filter_ret').o, 0))))
        out.append(Cand('the output of the scanner is open', lambda w: libc_io.is_open(w.eng, w.st, gptr(w.eng, w.st, 'yyout'))))
        out.append(Cand('the file has been parsed or not', lambda w: le(0, w.st.ghost['parsed'])))
        out.append(Cand('the file is open', lambda w: And(ne(w.st.ghost['in'].o, 0), eq(w.st.kind(w.st.ghost['in'].o), 5), eq(w.st.ghost['in'].f, 0))))
        out.append(Cand('the list of names to ignore is in place', lambda w: ListNow(gptr(w.eng, w.st, 'files_to_ignore'), self.mark(w.eng))))
        return out

    def mark(self, eng):
        return self.base if self.variant == 'on top' else eng.pre.next

    def sequences_ready(self, eng, st):
        """the parser continues the list of sequences read before"""
        g, c = st.ghost, self.chain
        h, cur = gptr(eng, st, 'cf_sequence_ret'), gptr(eng, st, 'cf_sequence_current')
        start = eq(h.o, 0)
        if c is not None:
            start = And(same(h, c.head), Imp(lt(0, c.N), And(eq(cur.o, c.node(sub(c.N, 1))), eq(cur.f, 0))))
        return bite(lt(0, g['parsed']), And(same(h, g['ret']), same(cur, g['cur'])), start)

    def ignored_ready(self, eng, st):
        """the names to ignore are those read before, or none"""
        l = gptr(eng, st, 'files_to_ignore')
        start = And(le(eng.pre.next, l.o), eq(st.rd('i32', l.o, COUNT), 0))
        if self.prevlist is not None:
            start = bite(lt(0, self.count), same(l, self.prevlist), Or(start, same(l, self.prevlist)))
        return bite(lt(0, st.ghost['parsed']), same(l, st.ghost['files']), start)

    # ---------------- the parser is started in the right state
    def on_fopen(self, eng, st, p, sf, mode, r, ins):
        if mode is not None and mode[:1] == b'r':
            eng.oblige(st, eq(sf.val, self.sf[1]), 'the file opened is the one named', ins, props=['C24'])

    def on_yyparse(self, eng, st, ins):
        prev = eng.args[1]
        O = lambda g, n: eng.oblige(st, g, n, ins, props=['C24', 'C18'])
        G = lambda n: gptr(eng, st, n)
        yin, yout = G('yyin'), G('yyout')
        ev = [e for e in st.events if e[0] == 'fopen' and e[3] is not None and e[3][:1] == b'r']
        O(And(eq(yin.o, ev[-1][4].o), ne(yin.o, 0), eq(yin.f, 0), eq(st.kind(yin.o), 5)) if ev else eq(yin.o, st.ghost['in'].o), 'the parser reads the file named')
        # the scanner of the parser writes unmatched text to yyout, and takes the standard output when there is none
        O(libc_io.is_open(eng, st, yout), 'the scanner has a stream of its own to write to')
        cf = eng.find_str(st, G('current_filename'))
        O(eq(cf.val, self.sf[1]) if cf is not None else z3.BoolVal(False), 'the parser knows the name of the file')
        g = st.ghost
        O(self.sequences_ready(eng, st), 'sequences read before are kept, new ones follow them')
        O(Or(lt(0, g['parsed']), eq(G('cf_filter_ret').o, 0)), 'the first sequence starts without filters')
        l = G('files_to_ignore')
        lv = ListInv('the list of names to ignore is a list', l)
        eng.oblige(st, lv, 'the list of names to ignore is well formed', ins, props=['C24', 'C18'])
        if find_list(eng, st, l) is None:
            return
        O(self.ignored_ready(eng, st), 'names to ignore are added to the ones read before')
        # ---- what the parser does
        for d in conf_memory(self.base if self.variant == 'on top' else eng.pre.next):
            st.havoc(d)
        mark = self.mark(eng)
        for n in ('cf_sequence_ret', 'cf_sequence_current', 'cf_filter_ret', 'cf_filter_current', 'current_name'):
            st.havoc(gcell(eng, n))
        st.assume(eng.new_next(st))
        ListInv('', l).assume(eng, st)
        st.assume(le(mark, find_list(eng, st, l).view.files.o))
        g['parsed'] = add(g['parsed'], 1)
        g['ret'], g['cur'], g['files'], g['in'] = G('cf_sequence_ret'), G('cf_sequence_current'), l, yin

    def at_return(self, eng, pre, s, args, r, ins):
        f, prev, opts = args
        O = lambda g, n: eng.oblige(s, g, n, ins, props=['C24', 'C18'])
        ev = [e for e in s.events if e[0] == 'fopen' and e[3] is not None and e[3][:1] == b'r']
        opened = bool(ev) and ev[-1][4] is not NULL
        if not opened and eng.holds(s, eq(s.ghost['parsed'], 0)):
            O(z3.BoolVal(bool(ev)), 'the file is tried')
            O(same(r, prev), 'a file that cannot be opened changes nothing')
            if prev is not NULL:
                q, l = s.rdptr(prev.o, CSEQS), s.rdptr(prev.o, CIGNORE)
                O(And(same(q, pre.rdptr(prev.o, CSEQS)), same(l, self.prevlist)), 'the configuration so far is kept')
                eng.oblige(s, Conf('', r, self.base), 'the configuration so far is well formed', ins)
            return
        O(lt(0, s.ghost['parsed']), 'a file that can be opened is parsed')
        if prev is not NULL:
            O(same(r, prev), 'the file is applied on top of the configuration so far')
        else:
            eng.oblige(s, Fresh('', r, pre).formula(s), 'the result is a new record', ins)
        q, l = s.rdptr(r.o, CSEQS), s.rdptr(r.o, CIGNORE)
        O(same(q, s.ghost['ret']), 'the result has the sequences of the parser')
        O(same(l, s.ghost['files']), 'the result has the names to ignore of the parser')
        eng.oblige(s, And(ne(r.o, 0), le(CSIZE, s.size(r.o)), eq(s.kind(r.o), 1)), 'the result is a record', ins)
        eng.oblige(s, ListNow(l, self.mark(eng)), 'the names to ignore are a well-formed list', ins)

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        f, prev, opts = args
        base = eng.pre.next
        sf = need_str(eng, st, f, ins, 'name of the configuration file')
        m = st.mem['i8']
        outs = []
        for s, old in zip(fork(st, eq(prev.o, 0), ne(prev.o, 0)), (False, True)):
            if s is None:
                continue
            p = prev if old else NULL
            if old:
                eng.oblige(s, Conf('', prev, base), 'parse_config_file: requires a configuration', ins)
            for d in parser_cells(eng):
                s.havoc(d)
            no = s.copy()
            no.events += (('config_file', f, sf, m, p, p, False),)
            outs.append((no, p))
            for d in conf_memory(base):
                s.havoc(d)
            pre = s.copy()
            s.assume(eng.new_next(s))
            r = prev if old else fresh_ptr(eng, pre, s, args)
            if not old:
                s.assume(le(pre.next, r.o))
            Conf('', r, base).assume(eng, s)
            s.events += (('config_file', f, sf, m, p, r, True),)
            outs.append((s, r))
        return outs


class ListNow(Clause):
    """a well-formed list, made since base"""
    def __init__(self, l, base):
        self.l, self.base, self.name, self.props = l, base, 'list', None

    def assume(self, eng, st):
        st.assume(le(self.base, self.l.o), lt(self.l.o, st.next))
        ListInv('', self.l).assume(eng, st)
        st.assume(le(self.base, find_list(eng, st, self.l).view.files.o))

    def prove(self, eng, st, what):
        if isinstance(self.l.o, int) or not eng.prove(st, And(le(self.base, self.l.o), lt(self.l.o, st.next)), what) or not ListInv('', self.l).prove(eng, st, what):
            return False
        return eng.holds(st, le(self.base, find_list(eng, st, self.l).view.files.o))


@spec
class ConfigLoad(FnSpec):
    name = 'config_file_load'
    props = ('C24',)
    variants = ('named', 'search')
    SYSTEM = (b'/usr/local/etc/detoxrc', b'/etc/detoxrc', b'/usr/local/etc/detoxrc')     # SYSCONFDIR as compiled, then the fixed ones
    USER = ((b'HOME', b'/.detoxrc'), (b'XDG_CONFIG_HOME', b'/detox/detoxrc'))
    LIMIT = 256

    def requires(self, eng, st, args):
        o, = args
        c = st.rdptr(o.o, OCONF)
        r = [F('the options are a record', And(ne(o.o, 0), eq(o.f, 0), eq(role(o.o), OPTIONS), ne(st.kind(o.o), 0), le(OSIZE, st.size(o.o))))]
        if eng.spec is not self:
            return r
        if self.variant == 'named':
            self.sf = (fresh('n'), fresh('sv'))
            r.append(Str('the name of the configuration file is a string', c, *self.sf))
        else:
            r.append(F('no configuration file is named', eq(c.o, 0)))
        return r

    def modifies(self, eng, st, args):
        return parser_cells(eng)

    def begin(self, eng, st, args, fn):
        self.env = {}
        for n, _ in self.USER:
            e = eng.fresh_val(st, ('ptr',), 'env')
            self.env[n] = (z3.Bool(fresh_name('envset')), e, fresh('envn'), fresh('sv'))
            st.assume(Imp(self.env[n][0], And(lt(0, e.o), lt(self.env[n][2], 2 ** 30))))
            eng.assumptions['settings in the environment are shorter than 2^30 bytes'] = 1

    def is_path(self, eng, st, e, n, suf):
        """the file tried is the given one below the directory named by the environment"""
        _, f, sf, m = e[:4]
        isset, p, ln, _ = self.env[n]
        k = fresh('k')
        from contracts import lit_at
        old = eng.pre.mem['i8']
        want = ite(lt(k, ln), read(old, p.o, add(p.f, k), eng, None), lit_at(suf, sub(k, ln)))
        return And(isset, eq(sf.n, add(ln, len(suf))), Imp(And(le(0, k), lt(k, sf.n)), eq(read(m, f.o, add(f.f, k), eng, None), want)))

    def order(self, eng, s, r):
        """the files tried are the documented ones, in order"""
        ev = [e for e in s.events if e[0] in ('config_file', 'builtin')]
        built = [e for e in ev if e[0] == 'builtin']
        files = [e for e in ev if e[0] == 'config_file']
        if len(built) > 1 or ev != files + built:
            return z3.BoolVal(False)
        alts = []
        for ns in (1, 2, 3):
            if ns > len(files):
                break
            sy, us = files[:ns], files[ns:]
            if any(e[6] for e in sy[:-1]) or not sy[-1][6] and ns < 2:
                continue
            g = [text_is(eng, e[3], e[1], e[2], w) for e, w in zip(sy, self.SYSTEM)] + [eq(e[4].o, 0) for e in sy]
            cur = sy[-1][5]
            for mask in range(4):
                use = [u for i, u in enumerate(self.USER) if mask >> i & 1]
                if len(use) != len(us):
                    continue
                h, c = [], cur
                for i, (n, suf) in enumerate(self.USER):
                    isset, _, ln, _ = self.env[n]
                    if not mask >> i & 1:
                        h.append(Or(Not(isset), le(self.LIMIT, add(ln, len(suf)))))
                for (n, suf), e in zip(use, us):
                    h += [self.is_path(eng, s, e, n, suf), eq(e[4].o, c.o), eq(e[4].f, c.f)]
                    c = e[5]
                if built:
                    h += [eq(c.o, 0)]
                    c = built[0][1]
                else:
                    h += [ne(c.o, 0)]
                h += [eq(r.o, c.o), eq(r.f, c.f)]
                alts.append(And(*(g + h)))
        return Or(*alts) if alts else z3.BoolVal(False)

    def named(self, eng, s):
        ev = [e for e in s.events if e[0] in ('config_file', 'builtin')]
        if len(ev) != 1 or ev[0][0] != 'config_file':
            return None, z3.BoolVal(False)
        e = ev[0]
        return e, And(eq(e[2].val, self.sf[1]), eq(e[4].o, 0))

    def at_return(self, eng, pre, s, args, r, ins):
        O = lambda g, n: eng.oblige(s, g, n, ins, props=['C24'])
        if self.variant == 'named':
            e, ok = self.named(eng, s)
            O(ok, 'only the file named is used')
            if e is not None:
                O(And(z3.BoolVal(e[6]), eq(r.o, e[5].o), eq(r.f, e[5].f)), 'it could be read, and the result is its contents')
        else:
            O(self.order(eng, s, r), 'the documented files are consulted in the documented order')
        eng.oblige(s, Conf('', r, pre.next), 'the result is a configuration', ins)

    def on_exit(self, eng, st, code, ins):
        if any(e[0] in ('malloc', 'strdup') and e[-1] is NULL for e in st.events):
            return
        O = lambda g, n: eng.oblige(st, g, n, ins, props=['C24'], assume=False)
        if self.variant != 'named':
            O(z3.BoolVal(False), 'the program does not stop when no file is named')
            return
        e, ok = self.named(eng, st)
        O(And(ok, z3.BoolVal(e is not None and not e[6])), 'the program stops only when the file named cannot be read')
        O(ne(code, 0), 'and reports failure')

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        for c in self.requires(eng, st, args):
            eng.oblige(st, c, '%s: requires %s' % (self.name, c.name), ins)
        c = st.rdptr(args[0].o, OCONF)
        t = st.copy()
        t.assume(ne(c.o, 0))
        if t.feasible():
            eng.oblige(t, IsStr('', c), 'config_file_load: requires the name of the configuration file to be NULL or a string', ins, assume=False)
        for d in parser_cells(eng):
            st.havoc(d)
        pre = st.copy()
        st.assume(eng.new_next(st))
        r = fresh_ptr(eng, pre, st, args)
        Conf('', r, pre.next).assume(eng, st)
        st.events += (('config', args[0], r),)
        h = getattr(eng.spec, 'on_config', None)
        if h:
            h(eng, st, r)
        return [(st, r)]


@spec
class SpoofConfig(FnSpec):
    name = 'spoof_config_file'
    props = ('C23',)
    unroll = 40
    S, W = (SAFE, b'safe', 0), (WIPEUP, None, 1)
    L1, CP, UC, UN, LO = (ISO, b'iso8859_1', 0), (ISO, b'cp1252', 0), (UTF8, b'unicode', 0), (UNCGI, None, 0), (LOWER, None, 0)
    DOCUMENTED = ((b'default', (S, W)), (b'iso8859_1', (L1, S, W)), (b'iso8859_1-legacy', (CP, L1, S, W)), (b'utf_8', (UC, S, W)), (b'uncgi', (UN, S, W)),
                  (b'lower', (S, LO, W)), (b'iso8859_1-only', (L1,)), (b'cp1252-only', (CP,)), (b'utf_8-only', (UC,)), (b'uncgi-only', (UN,)), (b'lower-only', (LO,)))
    IGNORED = b'{arch}'

    def at_return(self, eng, pre, s, args, r, ins):
        O = lambda g, n: eng.oblige(s, g if not isinstance(g, bool) else z3.BoolVal(g), n, ins, props=['C23', 'C07'] if 'sequence default' in n else ['C23'])
        eng.oblige(s, Conf('', r, pre.next, made=True), 'the result is a configuration', ins, assume=False)
        q = s.rdptr(r.o, CSEQS)
        for name, filters in self.DOCUMENTED:
            nm = name.decode()
            O(And(le(pre.next, q.o), eq(q.f, 0), ne(s.kind(q.o), 0), le(SSIZE, s.size(q.o))), 'there is a sequence %s' % nm)
            sf = eng.find_str(s, s.rdptr(q.o, SNAME))
            O(eq(sf.val, eng.const_val(name)) if sf is not None else False, 'sequence %s has its name' % nm)
            O(eng.find_str(s, s.rdptr(q.o, SSOURCE)) is not None, 'sequence %s names its origin' % nm)
            f = s.rdptr(q.o, SFILTERS)
            for k, (cl, built, trail) in enumerate(filters):
                w = 'filter %d of sequence %s ' % (k + 1, nm)
                O(And(le(pre.next, f.o), eq(f.f, 0), ne(s.kind(f.o), 0), le(FSIZE, s.size(f.o))), w + 'exists')
                O(eq(s.rd('i32', f.o, CLEANER), cl), w + 'is the documented cleaning')
                b = s.rdptr(f.o, FBUILTIN)
                if built is None:
                    O(eq(b.o, 0) if cl in TABLES else True, w + 'uses no table')
                else:
                    bf = eng.find_str(s, b)
                    O(eq(bf.val, eng.const_val(built)) if bf is not None else False, w + 'uses the documented table')
                if cl in TABLES:
                    O(eq(s.rdptr(f.o, FNAME).o, 0), w + 'uses no file')
                O(eq(s.rdptr(f.o, FTABLE).o, 0), w + 'starts without a table')
                if cl == WIPEUP:
                    O(Iff(ne(s.rd('i32', f.o, TRAIL), 0), z3.BoolVal(bool(trail))), w + 'removes trailing characters as documented')
                f = s.rdptr(f.o, NEXT)
            O(eq(f.o, 0), 'sequence %s has no other filter' % nm)
            q = s.rdptr(q.o, SNEXT)
        O(eq(q.o, 0), 'there is no other sequence')
        l = s.rdptr(r.o, CIGNORE)
        v = find_list(eng, s, l)
        O(And(eq(v.view.count, 1), eq(v.view.val(0), eng.const_val(self.IGNORED))) if v is not None else False, 'the documented entry is ignored, and no other')

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        pre = st.copy()
        st.assume(eng.new_next(st))
        r = fresh_ptr(eng, pre, st, args)
        Conf('', r, pre.next).assume(eng, st)
        st.events += (('builtin', r),)
        return [(st, r)]


@spec
class DumpConfig(FnSpec):
    """the listing: every sequence of the configuration is named once, in order; nothing but the position in the list of
    ignored names changes"""
    name = 'dump_config_file'
    props = ('C18', 'C23', 'C25')
    unroll = 8
    unroll_states = 12
    null_text = True        # printf of glibc prints "(null)" for NULL
    allocates = False

    def requires(self, eng, st, args):
        c, o = args
        own = eng.spec is self
        l = st.rdptr(c.o, CIGNORE)
        return [F('a configuration', And(ne(c.o, 0), eq(c.f, 0), le(CSIZE, st.size(c.o)), ne(st.kind(c.o), 0))),
                F('options', And(ne(o.o, 0), eq(o.f, 0), le(OSIZE, st.size(o.o)), ne(st.kind(o.o), 0))),
                ListInv('the list of names to ignore is well formed', l)]

    def begin(self, eng, st, args, fn):
        c, o = args
        st.assume(eq(role(c.o), CONFIG), eq(role(o.o), OPTIONS))
        self.RANK = z3.Function(fresh_name('rank'), IntS, IntS)
        m = dict(st.mem)

        def sound(o2):
            """the head of a list of filters, or the link of one"""
            return Or(eq(o2, 0), And(eq(role(o2), FILTER), lt(0, o2), ne(read(m['kind'], o2, 0, eng, None), 0), le(FSIZE, read(m['size'], o2, 0, eng, None))))
        self.sound = sound

        def rank(args):
            o2 = fromz(args[0])
            out = [le(0, atom(self.RANK(z(o2))))]
            if eng._cur_gen <= 1:
                nx, nf = read(m['po'], o2, NEXT, eng, None), read(m['pf'], o2, NEXT, eng, None)
                out.append(Imp(eq(role(o2), FILTER), And(sound(nx), eq(nf, 0), Imp(ne(nx, 0), lt(atom(self.RANK(z(nx))), atom(self.RANK(z(o2))))))))
            return out
        st.rules([(self.RANK.name(), rank)])
        self.chain = SeqList(eng, st, st.rdptr(c.o, CSEQS))

        def nodes(args):
            i = fromz(args[0])
            h, f = self.chain.rd('po', i, SFILTERS), self.chain.rd('pf', i, SFILTERS)
            return [Imp(And(le(0, i), lt(i, self.chain.N)), And(sound(h), eq(f, 0)))]
        st.rules([(self.chain.NODE.name(), nodes)])
        SL, SV = z3.Function(fresh_name('sl'), IntS, IntS), z3.Function(fresh_name('sval'), IntS, IntS)

        def hook(eng, st, p):
            x, cc = eng.head(p.o)
            if x is None or cc or x.num_args() != 2 or not x.decl().name().startswith('po'):
                return None
            o2, off = fromz(x.arg(0)), fromz(x.arg(1))
            if any(const_diff(off, k) == 0 for k in (FNAME, FBUILTIN)) and eng.holds(st, eq(role(o2), FILTER)) or const_diff(off, SSOURCE) == 0 and eng.holds(st, eq(role(o2), SEQ)):
                return eng.assume_str_if(st, ne(p.o, 0), p, atom(SL(z(p.o))), atom(SV(z(p.o))))
            return None
        st.data['strhooks'] = st.data.get('strhooks', ()) + (hook,)
        st.ghost['listed'] = 0
        self.list = self.ign = st.rdptr(c.o, CIGNORE)
        self.ignored = find_list(eng, st, self.list).view

    def modifies(self, eng, st, args):
        return [('cell', 'i32', st.rdptr(args[0].o, CIGNORE).o, PTR)]

    def fresh_ghost(self, eng, st, g):
        return fresh(g)

    def on_out(self, eng, st, stream, segs, ins):
        c = self.chain
        for s in segs or []:
            if s[3][0] != 'str' or isinstance(s[3][1].o, int):
                continue
            p = s[3][1]
            k = st.ghost['listed']
            x, cc = eng.head(p.o)
            if x is None or cc or x.num_args() != 2 or not x.decl().name().startswith('po') or const_diff(fromz(x.arg(1)), SNAME) != 0:
                continue
            eng.oblige(st, And(lt(k, c.N), eq(p.o, c.rd('po', k, SNAME)), eq(p.f, c.rd('pf', k, SNAME)), z3.BoolVal(stream_name(eng, st, stream) == 'stdout')),
                       'the names of the sequences are listed in order', ins, props=['C23'])
            st.ghost['listed'] = add(k, 1)

    def candidates(self, v):
        c = self.chain
        out = []
        for n in v.ptrs():
            out.append(Cand('%s walks the sequences' % n, lambda w, n=n: c.on(w.phi[n])))
            out.append(Cand('%s is a filter or NULL' % n, lambda w, n=n: And(self.sound(w.phi[n].o), eq(w.phi[n].f, 0), le(0, atom(self.RANK(z(w.phi[n].o)))))))
            out.append(Cand('names before %s are listed' % n, lambda w, n=n: And(c.on(w.phi[n]), eq(w.st.ghost['listed'], c.idx(w.phi[n].o)))))
        for n in v.ptrs():
            out.append(Cand('%s is NULL or the name taken last' % n, lambda w, n=n: Ahead(self, w, n)))
        def place(w):
            f = find_list(w.eng, w.st, self.list)
            pos = w.st.rd('i32', self.list.o, PTR)
            return z3.BoolVal(False) if f is None else And(le(0, pos), le(pos, f.view.count))
        out.append(Cand('the position in the list of names to ignore', place))
        return out

    def measures(self, eng):
        def rank(phi, st):
            for n, p in phi.items():
                if isinstance(p, Ptr) and st.eng.holds(st, And(self.sound(p.o), eq(p.f, 0))):
                    return ite(eq(p.o, 0), 0, add(atom(self.RANK(z(p.o))), 1))
            return None

        def names(phi, st):
            f = find_list(st.eng, st, self.list)
            return None if f is None else sub(f.view.count, st.rd('i32', self.list.o, PTR))

        def names_ahead(phi, st):
            f = find_list(st.eng, st, self.list)
            for n, p in phi.items():
                if f is not None and isinstance(p, Ptr):
                    pos = st.rd('i32', self.list.o, PTR)
                    if st.eng.holds(st, Imp(ne(p.o, 0), And(le(1, pos), eq(p.o, f.view.obj(sub(pos, 1)))))):
                        return ite(eq(p.o, 0), 0, add(sub(f.view.count, pos), 1))
            return None
        return walk_measures(self.chain) + [('rest of the filters', rank), ('rest of the names', names), ('rest of the names, one ahead', names_ahead)]

    def at_return(self, eng, pre, s, args, r, ins):
        eng.oblige(s, eq(s.ghost['listed'], self.chain.N), 'all sequences are listed', ins, props=['C23'])
        eng.oblige(s, ListInv('the list of names to ignore is well formed', self.list), 'the list of names to ignore is well formed', ins)

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        for c in self.requires(eng, st, args):
            eng.oblige(st, c, 'dump_config_file: requires %s' % c.name, ins)
        l = st.rdptr(args[0].o, CIGNORE)
        f = find_list(eng, st, l)
        st.havoc(('cell', 'i32', l.o, PTR))
        if f is not None:
            st.assume(le(0, st.rd('i32', l.o, PTR)), le(st.rd('i32', l.o, PTR), f.view.count))
        return [(st, None)]
