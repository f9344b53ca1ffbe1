"""The actions of the configuration language (C15, C18): for every rule of the grammar, what the generated parser does when
it reduces by that rule, and for every rule of the scanner, what it hands to the parser.  The driver and the tables are
bison's and flex's (trusted); the code of each reduction is executed from the start of the reduction to the push of its
value, for any contents of the stack of values, the code of each token from the choice of the rule, for any text."""
import os, re
import z3
import build
import ir
from term import *
from engine import *
from contracts import *
from specs_seq import ISO, LOWER, MAXL, SAFE, UNCGI, UTF8, WIPEUP
from specs_conf import Yyparse, gptr, gcell
from specs_filter import stream_name

SPECS = {}
CLEANER = {'UNCGI': UNCGI, 'LOWER': LOWER, 'ISO8859_1': ISO, 'UTF_8': UTF8, 'SAFE': SAFE, 'WIPEUP': WIPEUP, 'MAX_LENGTH': MAXL}
CALLS = ('cf_append_filter', 'cf_append_sequence_list', 'filelist_put')


def grammar():
    """the rules of the grammar in bison's order: [(left side, [symbols])], from 0; None when it is not plain"""
    t = open(os.path.join(build.REPO, 'src', 'config_file_yacc.y')).read()
    parts = re.split(r'(?m)^%%[ \t]*$', t)
    if len(parts) < 2:
        return None
    g = re.sub(r'/\*.*?\*/', ' ', parts[1], flags=re.S)
    g = re.sub(r'//[^\n]*', ' ', g)
    toks = []
    i = 0
    while i < len(g):
        c = g[i]
        if c.isspace():
            i += 1
        elif c == '{':
            d, j = 0, i
            while True:
                if g[j] in '"\'':
                    q = g[j]
                    j += 1
                    while g[j] != q:
                        j += 2 if g[j] == '\\' else 1
                d += {'{': 1, '}': -1}.get(g[j], 0)
                j += 1
                if d == 0:
                    break
            toks.append('{}')
            i = j
        elif c in ':|;':
            toks.append(c)
            i += 1
        else:
            m = re.match(r"[A-Za-z_.][\w.]*|'[^']+'|\"[^\"]+\"|%empty", g[i:])
            if not m:
                return None
            toks.append(m.group(0))
            i += len(m.group(0))
    rules, lhs, rhs = [], None, None
    for k, x in enumerate(toks):
        if x == ':':
            continue
        if k + 1 < len(toks) and toks[k + 1] == ':':
            if lhs is not None and rhs is not None:
                rules.append((lhs, rhs))
            lhs, rhs = x, []
        elif x == '|':
            rules.append((lhs, rhs))
            rhs = []
        elif x == ';':
            if rhs is not None:
                rules.append((lhs, rhs))
            lhs = rhs = None
        elif x == '{}':
            if k + 1 < len(toks) and toks[k + 1] not in ('|', ';') and not (k + 2 < len(toks) and toks[k + 2] == ':'):
                return None             # an action in the middle of a rule
        elif x != '%empty':
            if rhs is None or x.startswith('%'):
                return None
            rhs.append(x)
    if rhs is not None and lhs is not None:
        rules.append((lhs, rhs))
    if not rules:
        return None
    return [('', []), ('$accept', [rules[0][0], 'end'])] + rules


class Recorder(FnSpec):
    """a call is an event here"""
    def __init__(self, name):
        self.name = name

    def apply(self, eng, st, args, ins, t):
        st.events += (('call', self.name, tuple(args)),)
        return [(st, None if t == ('void',) or t is None else eng.fresh_val(st, t, self.name))]


class Region_:
    pass


TEXTS = ('string', 'ID', 'QSTRING')


class Reductions(Yyparse):
    name = 'yyparse'
    props = ('C15', 'C18')

    def plain(self, eng):
        """the grammar, when the parser at hand is the one bison makes of it (as far as its rules can tell)"""
        g = grammar()
        r1, r2 = (eng.M.globals.get(n) for n in ('yyr1', 'yyr2'))
        if g is None or r1 is None or r2 is None or not r1['init'] or r1['init'][0] != 'str' or not r2['init'] or r2['init'][0] != 'str':
            return None
        a, b = r1['init'][1], r2['init'][1]
        if len(b) != len(g) or any(b[k] != len(g[k][1]) for k in range(1, len(g))):
            return None
        names = {}
        if any(names.setdefault(a[k], g[k][0]) != g[k][0] for k in range(1, len(g))):
            return None
        known = set(CLEANER) | {'SEQUENCE', 'FILENAME', 'BUILTIN', 'LENGTH', 'REMOVE_TRAILING'}
        return g if known <= {x for _, r in g for x in r} else None

    def verify(self, eng):
        eng.spec, eng.fname = self, self.name
        eng.used_contracts, eng.used_libc = set(), set()
        eng.rets = 0
        fn = ir.get_func(eng.M, self.name)
        if fn is None:
            raise Unsupported('function yyparse not found in the source')
        eng.assumptions['the driver and the tables bison generates for the parser, and the scanner flex generates'] = 1
        g = self.plain(eng)
        sws = [(bn, b) for bn, b in fn.blocks.items() if b.ins[-1].op == 'switch' and len(b.ins[-1].a[3]) >= 5]
        if g is None or len(sws) != 1:
            eng.assumptions['the actions of a parser for another grammar than the one known'] = 1
            return
        bn, b = sws[0]
        t, v, dflt, cs = b.ins[-1].a
        # the default case has no action: it leads to where all cases meet
        end = dflt
        while len(fn.blocks[end].ins) == 1 and fn.blocks[end].ins[0].op == 'br' and len(fn.blocks[end].ins[0].a) == 1:
            end = fn.blocks[end].ins[0].a[0]
        body, work = set(), [bn]
        while work:
            x = work.pop()
            if x in body or x == end:
                continue
            body.add(x)
            tm = fn.blocks[x].ins[-1]
            if tm.op == 'br':
                work += [tm.a[0]] if len(tm.a) == 1 else [tm.a[1], tm.a[2]]
            elif tm.op == 'switch':
                work += [tm.a[2]] + [y for _, y in tm.a[3]]
        if any(fn.blocks[x].ins[-1].op == 'ret' for x in body):
            raise Unsupported('a reduction that leaves the parser')
        eng.contracts = dict(eng.contracts)
        for n in CALLS:
            eng.contracts[n] = Recorder(n)
        eng.record = True
        self.appended = {}
        for k in range(2, len(g)):
            self.reduce(eng, fn, bn, end, body, k, *g[k])
        # a sequence is stored once, when it is complete
        for k, (lhs, rhs) in enumerate(g):
            if lhs == 'sequence' and k:
                n = self.appended.get(k, 0) + sum(max([self.appended.get(j, 0) for j, (l2, _) in enumerate(g) if l2 == x] or [0]) for x in rhs[-1:])
                eng.oblige(eng.new_state(), z3.BoolVal(n == 1), 'a sequence is stored when it is complete', None, props=['C18'])
        for j, (l2, _) in enumerate(g):
            last = {rhs[-1] for lhs, rhs in g if lhs == 'sequence' and rhs}
            eng.oblige(eng.new_state(), z3.BoolVal(self.appended.get(j, 0) == 0 or l2 == 'sequence' or l2 in last), 'a sequence is stored only when it is complete', None, props=['C18'])

    # values of the grammar symbols
    def value(self, st, sp, n, k):
        """$k of a rule with n symbols"""
        return Ptr(sp.o, add(sp.f, 8 * (k - n)))

    def reduce(self, eng, fn, bn, end, body, k, lhs, rhs):
        n = len(rhs)
        st = eng.new_state()
        sp, ss = eng.fresh_val(st, ('ptr',), 'yyvsp'), eng.fresh_val(st, ('ptr',), 'yyssp')
        st.assume(And(lt(0, sp.o), lt(0, ss.o), ne(sp.o, ss.o), lt(sp.o, st.next), lt(ss.o, st.next), ne(st.kind(sp.o), 0), ne(st.kind(ss.o), 0), le(8 * n, sp.f), le(n, ss.f),
                      le(add(sp.f, 16), st.size(sp.o)), le(add(ss.f, 2), st.size(ss.o))))
        for gname in ('current_name', 'files_to_ignore'):
            st.assume(ne(eng.glob(gname), sp.o))
        b = fn.blocks[bn]
        used = {}
        for x in sorted(body | {end}):
            for i in fn.blocks[x].ins:
                for w in re.findall(r'%([\w.]+)', re.sub(r', !dbg.*', '', i.text)):
                    used[w] = 1
        made = {i.res for x in body | {end} for i in fn.blocks[x].ins if i.res and i.op != 'phi' or i.res and x != bn}
        for i in b.ins:
            if i.op == 'phi':
                st.env[i.res] = k if i.a[0][0] == 'int' else None
        # the other values are those of the surrounding function: the two stack pointers
        for nm in ('yyvsp', 'yyssp'):
            for w in used:
                if re.match(nm + r'\.\d+$', w) and w not in made:
                    st.env[w] = sp if nm == 'yyvsp' else ss
        # texts are strings the scanner has allocated
        for j, x in enumerate(rhs):
            if x in TEXTS:
                p = st.rdptr(sp.o, add(sp.f, 8 * (j + 1 - n)))
                st.assume(And(lt(0, p.o), lt(p.o, st.next), eq(st.kind(p.o), 1), ne(p.o, sp.o), ne(p.o, ss.o)))
                eng.assume_str(st, p, fresh('n'))
        pre = st.copy()
        eng.pre, eng.args = pre, []
        eng.frame = self.frame(eng, pre, [], sp)
        loop = Region_()
        loop.header, loop.body = None, body
        what = 'rule %d, %s: %s' % (k, lhs, ' '.join(rhs) or '(nothing)')
        for o in eng.run_from(st, fn, bn, None, loop):
            if o[0] != 'exit':
                raise Unsupported('a reduction that does not end')
            s = o[1]
            if o[2] != end:
                raise Unsupported('a reduction that ends elsewhere')
            eng.phis(s, fn.blocks[end], o[3])
            states = [s]
            for i in fn.blocks[end].ins[:-1]:
                if i.op == 'phi':
                    continue
                states = [y for x in states for y in eng.step(x, i)]
                if i.op == 'store':
                    break
            for s in states:
                if s.feasible():
                    eng.rets += 1
                    self.meaning(eng, pre, s, sp, what, k, lhs, rhs)

    def frame(self, eng, pre, args, sp=None):
        self.sp = sp
        return FnSpec.frame(self, eng, pre, args)

    def modifies(self, eng, st, args):
        return [gcell(eng, 'current_name'), ('obj', 'p', self.sp.o), ('obj', 'i32', self.sp.o), ('obj', 'i64', self.sp.o)]

    def meaning(self, eng, pre, s, sp, what, k, lhs, rhs):
        O = lambda c, nm, pr=['C15']: eng.oblige(s, c if not isinstance(c, bool) else z3.BoolVal(c), '%s: %s' % (what, nm), None, props=pr)
        n = len(rhs)
        ptr = lambda j: pre.rdptrq(sp.o, add(sp.f, 8 * (j - n)))
        num = lambda j: pre.rdq('i32', sp.o, add(sp.f, 8 * (j - n)))
        calls = [e for e in s.events if e[0] == 'call']
        kinds = [e[1] for e in calls]
        same = lambda p, q: And(eq(p.o, q.o), eq(p.f, q.f))
        after = lambda sym: rhs.index(sym) + 2 if sym in rhs and rhs.index(sym) + 1 < n else None
        name = gptr(eng, s, 'current_name')
        self.appended[k] = max(self.appended.get(k, 0), kinds.count('cf_append_sequence_list'))
        kinds = [x for x in kinds if x != 'cf_append_sequence_list']
        calls = [e for e in calls if e[1] != 'cf_append_sequence_list']
        if rhs and rhs[0] in CLEANER:
            if not O(kinds == ['cf_append_filter'], 'adds one filter'):
                pass
            if kinds == ['cf_append_filter']:
                c, bt, fl, ml, tr = calls[0][2]
                O(eq(c, CLEANER[rhs[0]]), 'the filter is the one named')
                for p, sym, nm in ((bt, 'BUILTIN', 'built-in table'), (fl, 'FILENAME', 'table file')):
                    j = after(sym)
                    O(eq(p.o, 0) if j is None else same(p, ptr(j)), 'its %s is %s' % (nm, 'not set' if j is None else 'the one given'))
                j = after('LENGTH')
                O(eq(ml, 0) if j is None else eq(ml, num(j)), 'its length limit is %s' % ('not set' if j is None else 'the one given'))
                O(ne(tr, 0) if 'REMOVE_TRAILING' in rhs else eq(tr, 0), 'its trailing option is %s' % ('on' if 'REMOVE_TRAILING' in rhs else 'off'))
        elif rhs and rhs[0] == 'FILENAME':
            O(kinds == ['filelist_put'], 'adds one name to ignore', ['C15', 'C18'])
            if kinds == ['filelist_put']:
                O(And(same(calls[0][2][0], gptr(eng, pre, 'files_to_ignore')), same(calls[0][2][1], ptr(2))), 'the name given is added to the list', ['C15', 'C18'])
        else:
            O(kinds == [], 'adds nothing', ['C15', 'C18'])
        if rhs and rhs[0] == 'SEQUENCE':
            O(same(name, ptr(rhs.index('string') + 1 if 'string' in rhs else 2)), 'the sequence has the name given', ['C18'])
        else:
            O(same(name, gptr(eng, pre, 'current_name')), 'the name of the sequence stays', ['C18'])
        if lhs == 'string':
            O(same(s.rdptrq(sp.o, add(sp.f, 8 - 8 * n)), ptr(1)), 'its value is the text', ['C15', 'C18'])


SPECS['yyparse'] = Reductions()


# ---------------------------------------------------------------- tokens
def tokens():
    """numbers of the tokens, in the order of their declaration; None when some are numbered by hand"""
    t = open(os.path.join(build.REPO, 'src', 'config_file_yacc.y')).read()
    t = re.sub(r'/\*.*?\*/', ' ', re.split(r'(?m)^%%[ \t]*$', t)[0], flags=re.S)
    r = {}
    for l in re.findall(r'(?m)^%(?:token|left|right|nonassoc|precedence)\b(.*)$', t):
        for x in re.sub(r'<[^>]*>', ' ', l).split():
            if not re.fullmatch(r'[A-Za-z_]\w*', x):
                return None
            r.setdefault(x, 258 + len(r))
    return r


def patterns():
    """the patterns of the scanner in order, from 1; None when it is not plain"""
    t = open(os.path.join(build.REPO, 'src', 'config_file_lex.l')).read()
    parts = re.split(r'(?m)^%%[ \t]*$', t)
    if len(parts) < 2 or re.search(r'(?m)^%[sx]\b', parts[0]):
        return None
    g, i, out = parts[1], 0, [None]
    while i < len(g):
        j = g.find('\n', i)
        j = len(g) if j < 0 else j
        if g[i] in ' \t\n' or i == j:
            if g[i:j].strip():
                return None             # code between the rules
            i = j + 1
            continue
        # the pattern ends at the first blank outside quotes and classes
        k, inq, inc = i, False, False
        while k < j:
            c = g[k]
            if c == '\\':
                k += 2
                continue
            if c == '"' and not inc:
                inq = not inq
            elif c == '[' and not inq:
                inc = True
            elif c == ']' and not inq:
                inc = False
            elif c in ' \t' and not inq and not inc:
                break
            k += 1
        p, a = g[i:k], g[k:j].strip()
        if p.startswith('<'):
            return None
        # flex quotes a text with "..."; for re it is escaped
        p = re.sub(r'(?<!\\)"((?:[^"\\]|\\.)*)"', lambda m: re.escape(m.group(1)), p) if not p.startswith('\\"') else p
        try:
            out.append(re.compile(p, re.I))
        except re.error:
            return None
        if a.startswith('{'):
            d, k = 0, g.index('{', k)
            while True:
                if g.startswith('/*', k):
                    k = g.index('*/', k) + 2
                    continue
                if g.startswith('//', k):
                    k = g.index('\n', k)
                    continue
                if g[k] in '"\'':
                    q = g[k]
                    k += 1
                    while g[k] != q:
                        k += 2 if g[k] == '\\' else 1
                d += {'{': 1, '}': -1}.get(g[k], 0)
                k += 1
                if d == 0:
                    break
            j = g.find('\n', k)
            j = len(g) if j < 0 else j
        i = j + 1
    return out


WORDS = dict((x.lower(), x) for x in ('BUILTIN FILENAME IGNORE ISO8859_1 LENGTH LOWER MAX_LENGTH REMOVE_TRAILING SAFE SEQUENCE UNCGI UTF_8 WIPEUP').split())
WORDS.update({'{': 'OPEN', '}': 'CLOSE', ';': 'EOL'})
QUOTED, NAME_, NUMBER = ('"a b"', '"#{;"', '"a\n', '""'), ('zz_9', 'a', 'Default'), ('42', '0')


class Tokens(FnSpec):
    name = 'yylex'
    numbers = True
    props = ('C15', 'C18')

    def apply(self, eng, st, args, ins, t):
        raise Unsupported('a call of the scanner outside the parser')

    def verify(self, eng):
        eng.spec, eng.fname = self, self.name
        eng.used_contracts, eng.used_libc = set(), set()
        eng.rets = 0
        fn = ir.get_func(eng.M, self.name)
        if fn is None:
            raise Unsupported('function yylex not found in the source')
        eng.assumptions['the driver and the tables bison generates for the parser, and the scanner flex generates'] = 1
        pats, tok = patterns(), tokens()
        sws = [bn for bn, b in fn.blocks.items() if b.ins[-1].op == 'switch' and pats and len(b.ins[-1].a[3]) >= len(pats)]
        if pats is None or tok is None or len(sws) != 1 or 'yylval' not in eng.M.globals or 'yytext' not in eng.M.globals \
                or not set(WORDS.values()) | {'ID', 'QSTRING', 'NVALUE'} <= set(tok):
            eng.assumptions['the actions of a scanner for other tokens than those known'] = 1
            return
        sw = sws[0]
        out, work = set(), [fn.order[0]]
        while work:
            x = work.pop()
            if x in out or x == sw:
                continue
            out.add(x)
            tm = fn.blocks[x].ins[-1]
            if tm.op == 'br':
                work += [tm.a[0]] if len(tm.a) == 1 else [tm.a[1], tm.a[2]]
            elif tm.op == 'switch':
                work += [tm.a[2]] + [y for _, y in tm.a[3]]
        self.body = set(fn.blocks) - out
        eng.record = True

        def first(text):
            c = [k for k in range(1, len(pats)) if pats[k].fullmatch(text)]
            return c[0] if c else 0
        done = set()
        for w in sorted(WORDS):
            k = first(w)
            done.add(k)
            self.token(eng, fn, sw, k, 'the word %s' % w, w, tok[WORDS[w]])
        for kind, ws in (('QSTRING', QUOTED), ('ID', NAME_), ('NVALUE', NUMBER)):
            for k in sorted({first(w) for w in ws}):
                done.add(k)
                self.token(eng, fn, sw, k, {'QSTRING': 'a quoted text', 'ID': 'a plain word', 'NVALUE': 'a number'}[kind], None, tok[kind], kind)
        for k in sorted({first(w) for w in (' ', '\t', '# a comment', '\n')}):
            done.add(k)
            self.token(eng, fn, sw, k, 'what separates words' , None, None)
        for k in set(range(1, len(pats))) - done:
            self.token(eng, fn, sw, k, 'rule %d' % k, None, 'any')

    def modifies(self, eng, st, args):
        r = [('obj', c, eng.glob('yylval')) for c in ('p', 'i32', 'i64')]
        if 'config_file_lineno' in eng.M.globals:
            r.append(gcell(eng, 'config_file_lineno'))
        return r

    def token(self, eng, fn, sw, k, what, word, want, kind=None):
        st = eng.new_state()
        O = lambda s, c, nm: eng.oblige(s, c if not isinstance(c, bool) else z3.BoolVal(c), '%s: %s' % (what, nm), None, props=['C15', 'C18'])
        if k == 0:
            O(st, False, 'the scanner knows it')
            return
        # the text of the token, as flex hands it over: ended by a zero byte that takes the place of what follows
        p = st.rdptr(eng.glob('yytext'), 0)
        ln = st.rd('i32', eng.glob('yyleng'), 0) if 'yyleng' in eng.M.globals else fresh('yyleng')
        n = fresh('n')
        st.assume(And(lt(0, p.o), lt(p.o, st.next), eq(st.kind(p.o), 1), le(1, n), le(n, ln), lt(ln, 2 ** 31 - 1), le(add(add(p.f, ln), 1), st.size(p.o))))
        ch = lambda s, j: s.rdq('i8', p.o, add(p.f, j))
        st.assume(eq(st.rd('i8', p.o, add(p.f, ln)), 0))
        sf = eng.assume_str(st, p, n)
        if kind != 'QSTRING':
            st.assume(eq(n, ln))
        else:
            # the text may have zero bytes inside
            last = st.rd('i8', p.o, add(p.f, sub(ln, 1)))
            st.assume(And(le(2, ln), eq(st.rd('i8', p.o, p.f), 34), Or(eq(last, 34), eq(last, 10))))
        if word is not None:
            st.assume(eq(n, len(word)))
            for j, c in enumerate(word):
                b = st.rd('i8', p.o, add(p.f, j))
                st.assume(Or(eq(b, ord(c)), eq(b, ord(c.upper()))))
        for i in fn.blocks[sw].ins:
            if i.op == 'phi':
                st.env[i.res] = k if i.a[0][0] == 'int' else None
        v = fn.blocks[sw].ins[-1].a[1]
        pre = st.copy()
        eng.pre, eng.args = pre, []
        eng.frame = self.frame(eng, pre, [])
        loop = Region_()
        loop.header, loop.body = sw, self.body
        for o in eng.run_from(st, fn, sw, None, loop):
            s = o[1]
            eng.stats['paths'] += 1
            if not s.feasible():
                continue
            eng.rets += 1
            if want == 'any':
                continue
            if want is None or o[0] != 'ret':
                O(s, (o[0] != 'ret') == (want is None), 'a token for the parser' if want is not None else 'no token')
                continue
            O(s, eq(o[2], want), 'the token is its own')
            lv = eng.glob('yylval')
            if kind == 'NVALUE':
                num = s.ghost.get('number')
                O(s, num is not None and z(s.rd('i32', lv, 0)) % 2 ** 32 == z(num) % 2 ** 32, 'its value is the number')
            if kind in ('ID', 'QSTRING'):
                r = s.rdptr(lv, 0)
                eng.oblige(s, Fresh('its value is a new string', r, pre, None), '%s: its value is a new string' % what, None, props=['C15', 'C18'])
                if kind == 'ID':
                    m, off = n, 0
                else:
                    off = 1
                    m = ite(And(le(2, n), eq(ch(pre, sub(n, 1)), 34)), sub(n, 2), sub(n, 1))
                j = fresh('j')
                O(s, And(eq(s.rd('i8', r.o, m), 0), Imp(And(le(0, j), lt(j, m)), eq(s.rd('i8', r.o, j), ch(pre, add(j, off))))), 'its value is the text')


SPECS['yylex'] = Tokens()


class SyntaxError_(FnSpec):
    """the end of the program at an error in a configuration file"""
    name = 'yyerror'
    must_return = False
    props = ('C18', 'C24')
    null_text = True

    def requires(self, eng, st, args):
        if eng.spec is not self:
            return [IsStr('the message is a string', args[0])]
        r = [Str('the message is a string', args[0], fresh('n'))]
        if 'current_filename' in eng.M.globals:
            r.append(Str('the name of the file is a string', gptr(eng, st, 'current_filename'), fresh('n')))
        return r

    def begin(self, eng, st, args, fn):
        if 'yytext' in eng.M.globals:
            t = gptr(eng, st, 'yytext')
            eng.assume_str_if(st, ne(t.o, 0), t, fresh('n'), fresh('sv'))

    def on_exit(self, eng, st, code, ins):
        O = lambda g, n: eng.oblige(st, g, n, ins, props=['C18'], assume=False)
        O(ne(code, 0), 'an error in a configuration file ends the program with a failure')
        O(z3.BoolVal(any(e[0] == 'out' and stream_name(eng, st, e[1]) == 'stderr' for e in st.events)), 'the error is reported')

    def finish(self, eng, rets):
        pass

    def check_return(self, eng, pre, s, args, r, ins):
        eng.oblige(s, z3.BoolVal(False), 'an error in a configuration file ends the program', ins, props=['C18'])

    def apply(self, eng, st, args, ins, t):
        eng.used_contracts.add(self.name)
        IsStr('the message is a string', args[0]).prove(eng, st, '') or eng.oblige(st, z3.BoolVal(False), 'yyerror: requires the message is a string', ins)
        return []


SPECS['yyerror'] = SyntaxError_()
