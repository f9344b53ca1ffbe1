"""Obligations about the whole program rather than one function."""
import re
import z3
import ir
from engine import *
from contracts import FnSpec

SPECS = {}


def spec(cls):
    s = cls()
    SPECS[s.name] = s
    return cls


# functions of the C library that leave the file system as it is (streams: see fopen below)
QUIET = set('''__errno_location strerror perror atoi strtol strtoul strtoll clearerr fclose feof ferror fgetc getc fgets fread ungetc fileno getenv
secure_getenv getopt getopt_long isatty malloc calloc realloc free memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strcasecmp
strncasecmp strcpy strncpy strcat strncat strchr strrchr strstr strdup strndup stpcpy printf fprintf snprintf sprintf vfprintf puts putchar fputs
fputc putc fwrite fflush setlocale exit abort _exit lstat stat fstat opendir readdir closedir fopen basename __xpg_basename dirname
__isoc99_sscanf sscanf isupper islower isalpha isalnum isdigit isxdigit isspace ispunct isprint isgraph iscntrl tolower toupper qsort bsearch
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc rewind fseek ftell access'''.split())


def reachable(M):
    """the functions main can reach: those named in the body of one that can be reached, or in a variable"""
    todo, seen = ['main'], {'main'}
    for g in re.findall(r'^@[\w.]+ = .*$', M.text, re.M):
        todo += [n for n in re.findall(r'@([\w.]+)', g)[1:] if n in M.funcs]
    seen |= set(todo)
    body = {}
    for m in re.finditer(r'^define .*?@([\w.]+)\((.*?)^\}$', M.text, re.M | re.S):
        body[m.group(1)] = m.group(2)
    while todo:
        for n in re.findall(r'@([\w.]+)', body.get(todo.pop(), '')):
            if n in M.funcs and n not in seen:
                seen.add(n)
                todo.append(n)
    return sorted(n for n in seen if n in M.funcs)


def callers(M):
    """(function, instruction, name of the function called or None)"""
    for n in reachable(M):
        f = ir.get_func(M, n)
        for b in f.order:
            for i in f.blocks[b].ins:
                if i.op == 'call':
                    c = i.a[1]
                    yield n, i, c[1] if c[0] == 'glob' else None


def literal(M, v):
    if v[0] == 'glob' and v[1] in M.globals:
        m = re.search(r'@%s = .*? c"([^"\\]*)\\00"' % re.escape(v[1]), M.text)
        if m:
            return m.group(1)
    return None


@spec
class Effects(FnSpec):
    """the only change made to the file system is the rename in parse_file, whose contract restricts it"""
    name = '(whole program)'
    props = ('C02', 'C03', 'C04')

    def verify(self, eng):
        eng.spec, eng.fname, eng.record, eng.rets = self, self.name, True, 1
        eng.used_contracts, eng.used_libc = set(), set()
        st = eng.new_state()
        M = eng.M
        for fn, i, c in callers(M):
            if c is None:
                ok, what = False, 'an unknown function'
            elif c.startswith('llvm.') or c in M.funcs or c == fn:
                continue
            elif c == 'fopen':
                mode = literal(M, i.a[2][1][1])
                ok, what = (mode is not None and mode[:1] == 'r' and '+' not in mode) or fn == 'parse_inline' or literal(M, i.a[2][0][1]) == '/dev/null', 'fopen for writing'
            elif c == 'rename':
                ok, what = fn == 'parse_file', 'rename'
            else:
                ok, what = c in QUIET, c
            eng.oblige(st, z3.BoolVal(ok), '%s does not change the file system (call of %s)' % (fn, what), i, assume=False)


ALLOCATORS = ('malloc', 'calloc', 'realloc', 'reallocarray', 'strdup', 'strndup', 'asprintf', 'vasprintf', 'getline', 'getdelim', 'aligned_alloc', 'memalign', 'posix_memalign')
# the generated scanner and parser test these themselves (skeletons of flex and bison, trusted)
SKELETON = {('yyalloc', 'malloc'), ('yyrealloc', 'realloc'), ('yyparse', 'malloc')}


def direct_allocators(M, specs):
    """functions under contract that call an allocator themselves: their own obligations say that no missing block is used"""
    return sorted({fn for fn, i, c in callers(M) if c in ALLOCATORS and fn in specs and specs[fn].props and 'C21' not in specs[fn].props})


@spec
class Allocations(FnSpec):
    """every block the program allocates comes from the checking allocators, or from a function verified to check itself"""
    name = '(every allocation)'
    props = ('C21',)

    def verify(self, eng):
        import driver
        eng.spec, eng.fname, eng.record, eng.rets = self, self.name, True, 1
        eng.used_contracts, eng.used_libc = set(), set()
        st = eng.new_state()
        specs = driver.load_specs()
        for fn, i, c in callers(eng.M):
            if c in ALLOCATORS:
                ok = fn in specs and specs[fn].props or (fn, c) in SKELETON
                eng.oblige(st, z3.BoolVal(bool(ok)), '%s allocates through a checking function (call of %s)' % (fn, c), i, assume=False)
            elif c in ('wrapped_malloc', 'wrapped_strdup'):
                eng.oblige(st, z3.BoolVal(True), '%s allocates through a checking function (call of %s)' % (fn, c), i, assume=False)


# the functions the default sequence is made of (their contracts are the premises of the lemma below)
DEFAULT_SEQUENCE = ('clean_safe', 'clean_wipeup', 'filter_run', 'sequence_run_filters', 'filter_load_table', 'sequence_review', 'load_builtin_safe_table', 'spoof_config_file',
                    'table_get', 'table_resize', 'table_init', 'table_put')


@spec
class DefaultSequence(FnSpec):
    """C07 follows from the contracts of the functions in DEFAULT_SEQUENCE.

    Write s for what clean_safe makes of a text with the built-in table, w for what clean_wipeup makes of it with the trailing
    option.  The sequence is n -> w(s(n)) (contracts of spoof_config_file, sequence_run_filters, filter_run, filter_load_table).
      A(t): every byte of t is wanted and kept by the safe filter.      B(t): no leading - _ #, no two adjacent separators.
    load_builtin_safe_table's C07 postconditions, with clean_safe's contract (byte by byte), give: A(s(t)); A(t) => s(t) = t; A of the
    three separators.  Here, by induction over the tokens of the very transducer in clean_wipeup's contract:
      w emits only bytes of its input (so A(t) => A(w(t))); B(w(t)); B(t) => w(t) = t.
    Hence A and B hold of w(s(n)), and w(s(w(s(n)))) = w(w(s(n))) = w(s(n))."""
    name = '(default sequence)'
    props = ('C07',)

    def verify(self, eng):
        from specs_filter import SPECS as FS
        eng.spec, eng.fname, eng.record, eng.rets = self, self.name, True, 1
        eng.used_contracts, eng.used_libc = {'clean_wipeup', 'clean_safe'}, set()
        self.wipeup(eng, type(FS['clean_wipeup'])(), False)
        self.wipeup(eng, type(FS['clean_wipeup'])(), True)
        self.compose(eng)

    def wipeup(self, eng, w, clean):
        st = eng.new_state()
        p = eng.fresh_val(st, ('ptr',), 'name')
        w.variant, w.n = 'name', fresh('n')
        eng.spec = w
        st.assume(ne(p.o, 0))
        for c in w.requires(eng, st, [p, 1]):
            c.assume(eng, st)
        w.begin(eng, st, [p, 1], None)
        eng.spec = self
        tr, tx, n = w.tr, w.text, w.n
        lo = tr.lo
        sep = lambda c: Or(eq(c, 45), eq(c, 95), eq(c, 46))
        lead = lambda c: Or(eq(c, 45), eq(c, 95), eq(c, 35))
        pend = lambda i: tr.state('pend', i)
        O = lambda s, g, nm: eng.oblige(s, g, nm, None, assume=False)
        if not clean:
            # ghost: the last byte put out before token i (0: none)
            LAST = z3.Function(fresh_name('last'), IntS, IntS)
            last = lambda i: atom(LAST(z(i)))

            def inv(i):
                return And(Or(eq(pend(i), 0), sep(pend(i))), Not(sep(last(i))), Imp(eq(tr.olen(i), 0), Or(eq(i, lo), eq(pend(i), 46))),
                           Imp(eq(i, lo), And(eq(pend(i), 0), eq(tr.olen(i), 0))), Iff(eq(last(i), 0), eq(tr.olen(i), 0)))
            s = st.copy()
            s.assume(eq(last(lo), 0))
            O(s, inv(lo), 'wipeup: the invariant holds at the first byte kept')
            O(s, Or(eq(lo, n), Not(lead(tx(lo)))), 'wipeup: the first byte kept is none of the dropped ones')
            i = fresh('i')
            s = st.copy()
            s.assume(And(le(lo, i), lt(i, tr.hi)), inv(i), *tr.step(i))
            s.assume(le(0, tr.olen(i)), Imp(lt(i, n), ne(tx(i), 0)), Imp(eq(i, lo), Or(eq(i, n), Not(lead(tx(i))))))
            L = tr.plen(i)
            b0, b1 = tr.pb(i, 0), tr.pb(i, 1)
            s.assume(eq(last(add(i, 1)), ite(eq(L, 0), last(i), ite(eq(L, 1), b0, b1))))
            O(s, And(le(0, L), le(L, 2)), 'wipeup: at most two bytes are put out at a time')
            O(s, Imp(le(1, L), Not(And(sep(last(i)), sep(b0)))), 'wipeup: no separator follows a separator')
            O(s, Imp(le(2, L), Not(And(sep(b0), sep(b1)))), 'wipeup: no separator follows a separator in one step')
            O(s, Imp(And(eq(tr.olen(i), 0), le(1, L)), Not(lead(b0))), 'wipeup: the result does not begin with a dropped character')
            O(s, Imp(le(1, L), Or(And(lt(i, n), eq(b0, tx(i))), sep(b0))), 'wipeup: only bytes of the name and separators are put out')
            O(s, Imp(le(2, L), And(lt(i, n), eq(b1, tx(i)))), 'wipeup: only bytes of the name are put out after a separator')
            O(s, Imp(lt(i, n), inv(add(i, 1))), 'wipeup: the invariant is kept')
        else:
            # a name of the form the sequence produces is put out as it is
            def inv(i):
                return And(eq(tr.olen(i), sub(i, ite(ne(pend(i), 0), 1, 0))), le(lo, tr.olen(i)),
                           Imp(ne(pend(i), 0), And(lt(lo, i), eq(pend(i), tx(sub(i, 1))), sep(pend(i)))),
                           Imp(And(lt(lo, i), sep(tx(sub(i, 1)))), ne(pend(i), 0)))
            s = st.copy()
            s.assume(Not(lead(tx(0))))
            O(s, eq(lo, 0), 'wipeup: nothing is dropped from a clean name')
            st.assume(eq(lo, 0))
            s = st.copy()
            O(s, inv(lo), 'wipeup of a clean name: the invariant holds at the start')
            i = fresh('i')
            s = st.copy()
            s.assume(And(le(lo, i), lt(i, tr.hi)), inv(i), *tr.step(i))
            s.assume(Imp(And(lt(lo, i), lt(i, n)), Not(And(sep(tx(sub(i, 1))), sep(tx(i))))), Imp(lt(i, n), ne(tx(i), 0)), Imp(eq(i, n), eq(tx(i), 0)))
            L = tr.plen(i)
            o = tr.olen(i)
            for q in (0, 1):
                O(s, Imp(lt(q, L), And(lt(add(o, q), n), eq(tr.pb(i, q), tx(add(o, q))))), 'wipeup of a clean name: byte %d put out is the one that stands there' % q)
            O(s, le(L, 2), 'wipeup of a clean name: at most two bytes are put out at a time')
            O(s, Imp(lt(i, n), inv(add(i, 1))), 'wipeup of a clean name: the invariant is kept')
            O(s, Imp(eq(i, n), eq(add(o, L), n)), 'wipeup of a clean name: the result is as long as the name')

    def compose(self, eng):
        """the propositional end of the argument, over uninterpreted texts"""
        s_, w_ = [z3.Function(fresh_name(x), IntS, IntS) for x in ('safe', 'wipe')]
        A, B = [z3.Function(fresh_name(x), IntS, z3.BoolSort()) for x in ('A', 'B')]
        v = z3.Int(fresh_name('text'))
        st = eng.new_state()
        sv = s_(v)
        ws = w_(sv)
        st.assume(A(sv), z3.Implies(A(sv), A(ws)), B(ws), z3.Implies(A(ws), s_(ws) == ws), z3.Implies(B(ws), w_(ws) == ws))
        eng.oblige(st, z3.And(A(ws), B(ws), w_(s_(ws)) == ws), 'the default sequence: the result is of the promised form and is not changed by cleaning it again', None, assume=False)
