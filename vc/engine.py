"""Deductive VC generator: symbolic execution of LLVM IR between loop headers, contracts at calls,
inferred-then-checked loop invariants, obligations discharged by z3 for all inputs (no bound)."""
import time, re
from collections import namedtuple, OrderedDict
import z3
from term import *
import term as T
import ir

# a property that follows from other properties of the same functions: their obligations count for it as well
RESTS_ON = {'C07': ('C06', 'C08', 'C14', 'C15', 'C16'), 'C16': ('C16 sources',)}

# a property that also rests on a part of what the contract of another function says (the names of those obligations):
# the function is verified for it too, and a change that breaks that part breaks the property
LOOKUP = {'table_get': ''}
LISTS = {f: '' for f in ('filelist_get', 'filelist_put', 'filelist_init', 'filelist_reset', 'filelist_count')}
PART_OF = {
    'C01': {'table_put': 'recorded maximum|with room for the text|private block|within live object|NUL-terminated', 'table_resize': 'is usable|within live object|private copy'},
    'C03': {'parse_options_getopt': '^option (dry|list) |^option (-n|-L|--dry-run|--inline) |^inline mode is on'},
    'C05': dict(LISTS, parse_options_getopt='^option (rec|special) |^option (-r|--recursive|--special) '),
    'C06': LOOKUP, 'C12': LOOKUP, 'C13': LOOKUP,
    'C14': {'wrapped_strdup': ''},
    'C16': {'table_put': '', 'table_init': '', 'table_get': ''},
    'C17': {'table_put': ''},
    'C18': {'parse_options_getopt': '^the seq or environment name|^option -s '},
    'C20': {'wrapped_strdup': ''},
    'C22': LISTS,
    'C23': {'filter_load_table': ''},
    'C24': {'cf_append_sequence_list': '', 'cf_append_filter': '', 'yyparse': '', 'parse_options_getopt': '^the conf name|^option -f '},
    'C25': dict(LISTS, parse_file='^the path handed back|^the entry renamed is|^the entry is renamed unless', parse_options_getopt='^the files are the remaining|^option special |^option --special '),
}


def counts_for(prop, props, fn=None, name=''):
    part = PART_OF.get(prop, {}).get(fn)
    if part is not None:
        return re.search(part, name) is not None
    return props is None or prop in props or any(x in props for x in RESTS_ON.get(prop, ()))


Ptr = namedtuple('Ptr', 'o f')
NULL = Ptr(0, 0)
IntS, BoolS = z3.IntSort(), z3.BoolSort()
ADDR = z3.Function('addr', IntS, IntS)
ROLE = z3.Function('role', IntS, IntS)      # ghost: what an object is used for (fixed when it is created)
SUFFIX = z3.Function('suffix', IntS, IntS, IntS)
STRMAX = 2 ** 31          # assumption: no C string is 2 GiB or longer


def role(o):
    return atom(ROLE(z(o)))


def pk(p):
    return (key(p.o), key(p.f))


class Unsupported(Exception):
    pass


class Enough(Exception):
    pass


class Budget(Exception):
    pass


# ---------------------------------------------------------------- memory: update chains over UF bases
_uid = [0]


def uid():
    _uid[0] += 1
    return _uid[0]


class Base:
    def __init__(self, cls, wm=None, name=None):
        self.uid = uid()
        self.cls = cls
        self.name = name or fresh_name(cls)
        self.f = z3.Function(self.name, IntS, IntS, IntS)
        self.wm = wm
        self.cache = {}
        BASES[self.name] = self


BASES = {}


class Store:
    def __init__(self, prev, o, i, v):
        self.prev, self.o, self.i, self.v = prev, o, i, v
        self.uid = uid()
        self.cls = prev.cls
        self.cache = {}


class Region:
    """cells with cond(o,i) have value val(o,i)"""
    def __init__(self, prev, cond, val, tag=None):
        self.prev, self.cond, self.val, self.tag = prev, cond, val, tag
        self.uid = uid()
        self.cls = prev.cls
        self.cache = {}


def read(n, o, i, eng=None, st=None):
    """value of cell (o,i); st given: solver may be asked about object identity"""
    start = n
    ck = (key(o), key(i), st is not None)
    if ck in start.cache:
        return start.cache[ck]
    pend = []       # (cond, value) pairs, outermost first
    while True:
        if isinstance(n, Base):
            r = eng.base_read(n, o, i) if eng is not None else atom(n.f(z(o), z(i)))
            break
        if isinstance(n, Store):
            so = eng.same_obj(st, o, n.o)
            if so is False:
                n = n.prev
                continue
            c = And(so, eq(i, n.i))
            if c is True:
                r = n.v
                break
            if c is not False:
                pend.append((c, n.v))
            n = n.prev
            continue
        c = n.cond(o, i, st)
        if c is True:
            r = n.val(o, i)
            break
        if c is not False:
            pend.append((c, n.val(o, i)))
        n = n.prev
    for c, v in reversed(pend):
        r = ite(c, v, r)
    start.cache[ck] = r
    return r


# ---------------------------------------------------------------- write descriptors
# ('cell',cls,o,i) ('obj',cls,o) ('range',cls,o,lo,hi) ('fresh',cls,N) ('all',cls) ('ghost',name)


def desc_cond(eng, d):
    if d[0] == 'cell':
        return lambda o, i, st: And(eng.same_obj(st, o, d[2]), eq(i, d[3]))
    if d[0] == 'obj':
        return lambda o, i, st: eng.same_obj(st, o, d[2])
    if d[0] == 'range':
        return lambda o, i, st: And(eng.same_obj(st, o, d[2]), le(d[3], i), lt(i, d[4]))
    if d[0] in ('fresh', 'since'):
        return lambda o, i, st: eng.is_fresh(st, o, d[2])
    if d[0] == 'pred':       # ('pred', cls, fn(o,i)->Bool)
        return lambda o, i, st: d[2](o, i)
    return lambda o, i, st: True


# ---------------------------------------------------------------- facts
class Node:
    __slots__ = ('parent', 'depth', 'facts', 'rules', 'apps', 'seen', 'memo')

    def __init__(self, parent):
        self.parent = parent
        if parent is None:
            self.depth, self.rules, self.apps, self.seen = 0, {}, {}, {}
        else:
            self.depth = parent.depth + 1
            self.rules, self.apps, self.seen = parent.rules, parent.apps, parent.seen
        self.facts = []
        self.memo = {}


_apps_memo = {}        # ast id -> tuple of (id) of UF applications below
_apps_keep = {}        # id -> z3 term (apps and roots kept alive)
class _lib:
    pass


for _n in ('Z3_get_ast_id', 'Z3_get_ast_kind', 'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_get_app_decl', 'Z3_get_decl_kind'):
    setattr(_lib, _n, staticmethod(getattr(z3.z3core, _n).__defaults__[0].f))
_ctx = z3.main_ctx()
_UFKIND = z3.Z3_OP_UNINTERPRETED


def _apps_rec(root):
    lib, c = _lib, _ctx.ref()
    stack = [(root, False)]
    memo = _apps_memo
    while stack:
        x, done = stack.pop()
        i = lib.Z3_get_ast_id(c, x)
        if not done:
            if i in memo:
                continue
            if lib.Z3_get_ast_kind(c, x) != 1:      # not an application
                memo[i] = frozenset()
                continue
            n = lib.Z3_get_app_num_args(c, x)
            if n == 0:
                memo[i] = frozenset()
                continue
            stack.append((x, True))
            for k in range(n):
                stack.append((lib.Z3_get_app_arg(c, x, k), False))
            continue
        n = lib.Z3_get_app_num_args(c, x)
        out = None
        for k in range(n):
            m = memo[lib.Z3_get_ast_id(c, lib.Z3_get_app_arg(c, x, k))]
            if m:
                out = m if out is None or out is m else (out | m)
        d = lib.Z3_get_app_decl(c, x)
        if lib.Z3_get_decl_kind(c, d) == _UFKIND:
            _apps_keep[i] = z3.z3._to_expr_ref(x, _ctx)
            out = (out or frozenset()) | {i}
        memo[i] = out or frozenset()


_roots = {}


def apps_of(t):
    """UF applications (arity>=1) in a z3 term"""
    i = t.get_id()
    h = _roots.get(i)
    if h is not None:
        return h[1]
    _apps_rec(t.as_ast())
    r = [_apps_keep[k] for k in sorted(_apps_memo[i])]
    _roots[i] = (t, r)
    return r


def happened(e, kinds):
    """an event of these kinds, or a loop that may have had some"""
    return bool(e[2] & set(kinds)) if e[0] == 'loop' else e[0] in kinds


class StrFact:
    """o[f..f+n) nonzero, o[f+n]==0 in i8 memory node `mem`; val: abstract value id of the text from f"""
    __slots__ = ('mem', 'o', 'f', 'n', 'val')

    def __init__(self, mem, o, f, n, val):
        self.mem, self.o, self.f, self.n, self.val = mem, o, f, n, val


class State:
    __slots__ = ('eng', 'env', 'mem', 'node', 'next', 'strs', 'events', 'ghost', 'wlog', 'trace', 'memo', 'data')

    def copy(s):
        n = State()
        n.eng, n.env, n.mem, n.node, n.next = s.eng, dict(s.env), dict(s.mem), s.node, s.next
        n.strs, n.events, n.ghost, n.wlog, n.trace = s.strs, s.events, dict(s.ghost), s.wlog, s.trace
        n.memo = dict(s.memo)
        n.data = dict(s.data)
        return n

    # -------------------------------------------------- facts
    def assume(s, *fs):
        fs = [f for f in fs if f is not True]
        if not fs:
            return s
        s.node = s.eng.extend(s.node, facts=fs)
        return s

    def rule(s, decl, cb):
        s.node = s.eng.extend(s.node, rules=[(decl, cb)])

    def rules(s, rs):
        s.node = s.eng.extend(s.node, rules=rs)

    def touch(s, t):
        if isinstance(t, L):
            s.node = s.eng.extend(s.node, touch=[T._ATOM[i] for i, _ in t.m])

    def feasible(s):
        return s.eng.feasible(s)

    # -------------------------------------------------- memory
    def rd(s, cls, o, i):
        return read(s.mem[cls], o, i, s.eng, s)

    def rdq(s, cls, o, i):
        """read without asking the solver"""
        return read(s.mem[cls], o, i, s.eng, None)

    def rdptr(s, o, i):
        return Ptr(s.rd('po', o, i), s.rd('pf', o, i))

    def rdptrq(s, o, i):
        return Ptr(s.rdq('po', o, i), s.rdq('pf', o, i))

    def wr(s, cls, o, i, v, log=True):
        s.mem[cls] = Store(s.mem[cls], o, i, v)
        if log:
            s.log(('cell', cls, o, i))

    def wrptr(s, o, i, p):
        s.wr('po', o, i, p.o, log=False)
        s.wr('pf', o, i, p.f, log=False)
        s.log(('cell', 'p', o, i))

    def log(s, d):
        s.wlog = (s.wlog, d)

    def havoc(s, d):
        """unknown contents for the cells described by d"""
        cls = d[1]
        if d[0] == 'fresh':
            return
        if cls == 'p':
            bo, bf = Base('po', s.next), Base('pf', s.next)
            for b in (bo, bf):
                s.mem[b.cls] = Region(s.mem[b.cls], desc_cond(s.eng, d), lambda o, i, b=b: s.eng.base_read(b, o, i), tag=d)
            s.rules([(bo.name, s.eng.po_rule(bo, bf, s.next))])
            s.log(d)
            return
        b = Base(cls, s.next)
        s.mem[cls] = Region(s.mem[cls], desc_cond(s.eng, d), lambda o, i, b=b: s.eng.base_read(b, o, i), tag=d)
        s.log(d)

    def size(s, o):
        return s.rd('size', o, 0)

    def kind(s, o):
        return s.rd('kind', o, 0)

    def alloc(s, size, kind=1):
        o = s.next
        s.next = add(s.next, 1)
        s.wr('size', o, 0, size, log=False)
        s.wr('kind', o, 0, kind, log=False)
        return Ptr(o, 0)

    def const_str(s, p):
        """bytes of a constant string pointer or None"""
        if isinstance(p.o, int) and p.o < 0 and isinstance(p.f, int):
            return s.eng.const_cstr(p.o, p.f)
        return None


CLS = ['i8', 'i16', 'i32', 'i64', 'po', 'pf', 'size', 'kind']
DATA = ['i8', 'i16', 'i32', 'i64', 'po', 'pf']
RANGES = {'i8': (0, 255), 'i16': (-2 ** 15, 2 ** 15 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1), 'i64': (-2 ** 63, 2 ** 63 - 1)}


# ---------------------------------------------------------------- clauses
class Clause:
    """a named formula usable as assumption and as goal.  props: property ids it serves (None: all)"""
    name = ''
    props = None


class F(Clause):
    def __init__(self, name, b, props=None):
        self.name, self.b, self.props = name, b, props

    def assume(self, eng, st):
        st.assume(self.b() if callable(self.b) else self.b)

    def prove(self, eng, st, what):
        return eng.prove(st, self.b() if callable(self.b) else self.b, what)


class All(Clause):
    """forall k in [lo,hi): body(k), where cell (cls, o, base+stride*k) is what body talks about.
    mems: memory nodes whose reads trigger it (default: current one of cls at assume time)"""
    def __init__(self, name, cls, o, base, stride, lo, hi, body, props=None, mems=None, guard=True, through=False):
        self.through = through
        self.name, self.cls, self.o, self.base, self.stride = name, cls, o, base, stride
        self.lo, self.hi, self.body, self.props, self.mems, self.guard = lo, hi, body, props, mems, guard

    def inst(self, k):
        r = And(le(self.lo, k) if self.lo is not None else True, lt(k, self.hi) if self.hi is not None else True)
        if r is False:
            return True
        return Imp(And(self.guard, r), self.body(k))

    def assume(self, eng, st):
        nodes = self.mems or [st.mem[self.cls]]
        names = set()
        for n in nodes:
            names |= bases(n)

        def cb(args, st_=None):
            o, i = fromz(args[0]), fromz(args[1])
            so = eng.same_obj(None, o, self.o)
            if so is False:
                return []
            d = sub(i, self.base)
            k = idiv(d, self.stride)
            g = eq(imod(d, self.stride), 0) if self.stride != 1 else True
            if g is False:
                return []
            r = Imp(And(so, g), self.inst(k))
            return [] if r is True else [r]
        st.rules([(n, cb) for n in names])
        if self.through:
            # the cells may be copies of others: instances for reads of those as well
            k0 = fresh('kt')
            for n in nodes:
                for t in apps_of(z(read(n, self.o, add(self.base, mul(self.stride, k0)), eng, None))):
                    if t.decl().name() in names and t.num_args() == 2:
                        o2, b2 = fromz(t.arg(0)), sub(fromz(t.arg(1)), mul(self.stride, k0))
                        if key(o2) != key(self.o) and not (set(a for a, _ in getattr(b2, 'm', ())) & set(a for a, _ in k0.m)):
                            st.rules([(t.decl().name(), lambda args, st_=None, o2=o2, b2=b2: self.elsewhere(eng, o2, b2, args))])

    def elsewhere(self, eng, o2, b2, args):
        o, i = fromz(args[0]), fromz(args[1])
        if eng.same_obj(None, o, o2) is not True:
            return []
        r = self.inst(idiv(sub(i, b2), self.stride))
        return [] if r is True else [r]

    def prove(self, eng, st, what):
        k = fresh('k_' + re.sub(r'\W', '', self.name)[:12])
        return eng.prove(st, self.inst(k), what)


class UFAll(Clause):
    """forall args: body(args), triggered by applications of a UF"""
    def __init__(self, name, decl, body, arity, props=None):
        self.name, self.decl, self.body, self.arity, self.props = name, decl, body, arity, props

    def assume(self, eng, st):
        def cb(args, st_=None):
            r = self.body(*[fromz(a) for a in args])
            return [] if r is True else [r]
        st.rules([(self.decl, cb)])

    def prove(self, eng, st, what):
        ks = [fresh('k') for _ in range(self.arity)]
        return eng.prove(st, self.body(*ks), what)


def bases(n):
    """UF names at the leaves of a memory chain"""
    n0 = n
    if n is None:
        return set()
    if getattr(n, '_bases', None) is not None:
        return n._bases
    out = set()
    while n is not None:
        if isinstance(n, Base):
            out.add(n.name)
            break
        if getattr(n, '_bases', None) is not None:
            out |= n._bases
            break
        if isinstance(n, Region):
            t = getattr(n.val, 'bases', None)
            if t is not None:
                out |= t()
            else:
                for x in n.val.__defaults__ or ():
                    if isinstance(x, Base):
                        out.add(x.name)
        n = n.prev
    n0._bases = out
    return out


class Fact:
    """an invariant known to hold in a memory snapshot, whose footprint lies in objects older than the watermark;
    free_cells(eng, st, cls, o, lo, hi) says which older cells it does not depend on"""
    def __init__(self, kind, o, view, st, free_cells=None):
        self.kind, self.o, self.view = kind, o, view
        self.mems = dict(st.mem)
        self.wm = st.next
        self.free_cells = free_cells

    def note(self, st):
        st.data['facts'] = st.data.get('facts', ()) + (self,)

    def holds(self, eng, st):
        for c in DATA + ['kind']:
            n = st.mem[c]
            while n is not self.mems[c]:
                if isinstance(n, Base):
                    return False
                if isinstance(n, Store):
                    d = ('cell', c, n.o, n.i)
                else:
                    d = n.tag
                if not self.harmless(eng, st, c, d):
                    return False
                n = n.prev
        return True

    def harmless(self, eng, st, c, d):
        if d is None:
            return False
        if d[0] in ('fresh', 'since'):
            return eng.holds(st, le(self.wm, d[2]))
        if d[0] == 'pred' and len(d) > 3:
            return d[3] in getattr(self.view, 'immune', ())
        if d[0] not in ('cell', 'obj', 'range'):
            return False
        o = d[2]
        k = ('wm', key(o), key(self.wm))
        if k not in st.memo:
            st.memo[k] = eng.holds(st, le(self.wm, o))
        if st.memo[k]:
            return True
        if isinstance(o, int) and eng.globs.get(o) == 'errno$':
            return True
        if self.free_cells is None:
            return False
        lo, hi = (None, None) if d[0] == 'obj' else ((d[3], add(d[3], 1)) if d[0] == 'cell' else (d[3], d[4]))
        return self.free_cells(eng, st, c, o, lo, hi)


def not_role(eng, st, o, *rs):
    if isinstance(o, int) and o < 0:
        return True                 # variables of the program have no role
    return eng.holds(st, And(*[ne(role(o), r) for r in rs]))


def find_fact(eng, st, kind, o):
    for f in reversed(st.data.get('facts', ())):
        if f.kind == kind and eng.same_obj(st, f.o, o) is True:
            return f
    return None


class Str(Clause):
    """p points to a NUL-terminated string of length n (term), abstract value val"""
    def __init__(self, name, p, n, val=None, props=None):
        self.name, self.p, self.n, self.val, self.props = name, p, n, val, props

    def assume(self, eng, st):
        eng.assume_str(st, self.p, self.n, self.val)

    def prove(self, eng, st, what):
        return eng.prove_str(st, self.p, self.n, what)


class IsStr(Clause):
    """p points to some NUL-terminated string"""
    def __init__(self, name, p, props=None, val=None):
        self.name, self.p, self.props, self.val = name, p, props, val

    def assume(self, eng, st):
        if self.val is None and eng.find_str(st, self.p) is not None:
            return
        n = fresh('len')
        eng.assume_str(st, self.p, n, self.val)

    def prove(self, eng, st, what):
        return eng.find_str(st, self.p) is not None


# ---------------------------------------------------------------- obligations
class Ob:
    __slots__ = ('name', 'where', 'props', 'n', 'ok', 'status', 'model', 'time', 'detail')

    def __init__(self, name, where, props):
        self.name, self.where, self.props = name, where, props
        self.n = self.ok = 0
        self.status = 'ok'
        self.model = None
        self.time = 0.0
        self.detail = None


class LoopInfo:
    pass


class Engine:
    def __init__(self, module, contracts, opts=None):
        self.M = module
        self.contracts = contracts
        self.opts = opts or {}
        self.obs = OrderedDict()
        self.solver = z3.SolverFor('QF_UFNIA') if False else z3.Solver()
        self.solver.set('timeout', 10000)
        self.stack = []
        self.root = Node(None)
        self.solver.push()
        self.stack.append(self.root)
        self.record = False
        self.globid = {}
        self.parent_next, self.upper_of, self.lower_of, self._apart = {}, {}, {}, {}
        self.globs = {}
        self.constinit = {}
        self.stats = dict(queries=0, time=0.0, paths=0, feas=0)
        self.loopcache = {}
        self.loopreport = {}
        self.assumptions = OrderedDict()
        self.deadline = None
        self.dump = None
        self.gen_limit = 4
        self.root = self.extend(self.root, rules=self.base_rules())

    # ------------------------------------------------------------ background theory
    def base_rules(self):
        rs = []
        for c, (lo, hi) in RANGES.items():
            rs.append((c, lambda a, s=None, c=c, lo=lo, hi=hi: self._range(c, a, lo, hi)))

        def po(args, st=None, self=self):
            return []
        rs.append(('addr', lambda a, s=None: [z3.And(ADDR(a[0]) >= 1, ADDR(a[0]) < 2 ** 46)]))
        rs.append(('mulf', self._mul_rule))
        rs.append(('kind', lambda a, s=None: [z3.Implies(self._cur_app == 1, a[0] >= 1)]))     # heap blocks have positive ids
        rs.append(('size', lambda a, s=None: [self.appz('size', a) >= 0, self.appz('size', a) < 2 ** 46]))
        return rs

    def appz(self, name, args):
        return self._cur_app

    def _range(self, c, args, lo, hi):
        t = self._cur_app
        return [z3.And(t >= lo, t <= hi)]

    def _mul_rule(self, args, st=None):
        t = self._cur_app
        a, b = args
        out = [z3.Implies(z3.And(a >= 0, b >= 0), t >= 0),
               z3.Implies(a == 0, t == 0), z3.Implies(b == 0, t == 0),
               z3.Implies(a == 1, t == b), z3.Implies(b == 1, t == a),
               z3.Implies(z3.And(a >= 0, b >= 0, a <= 2 ** 31, b <= 2 ** 31), t <= 2 ** 62),
               z3.Implies(z3.And(a >= 1, b >= 0), t >= b), z3.Implies(z3.And(b >= 1, a >= 0), t >= a)]
        for x in self._cur_apps.get('mulf', ()):
            if x.get_id() == t.get_id():
                continue
            for (p, q) in ((0, 1), (1, 0)):
                for (r, s) in ((0, 1), (1, 0)):
                    if x.arg(p).get_id() == t.arg(r).get_id():
                        m = t.arg(r)
                        u, v = x.arg(q), t.arg(s)
                        out.append(z3.Implies(z3.And(m >= 0, u <= v), x <= t))
                        out.append(z3.Implies(z3.And(m >= 0, v <= u), t <= x))
                        out.append(z3.Implies(z3.And(m >= 0, u + 1 <= v), x + m <= t))
                        out.append(z3.Implies(z3.And(m >= 0, v + 1 <= u), t + m <= x))
        return out

    # ------------------------------------------------------------ fact nodes
    def extend(self, parent, facts=(), rules=(), touch=(), temp=False):
        n = Node(parent)
        work = []       # (app, generation)
        newseen = None
        for f in facts:
            if f is False:
                f = z3.BoolVal(False)
            n.facts.append(f)
            for a in apps_of(f):
                work.append((a, 0))
        for t in touch:
            for a in apps_of(t):
                work.append((a, 0))
        if rules:
            n.rules = dict(n.rules)
            for d, cb in rules:
                n.rules[d] = n.rules.get(d, ()) + (cb,)
            for d, cb in rules:
                if '!' in d or d in n.apps:
                    lst = n.apps.get(d, ())
                else:
                    lst = [a for dd, l in n.apps.items() if dd.split('!')[0] == d for a in l]
                for a in lst:
                    self._fire(n, cb, a, n.seen.get(a.get_id(), 0), work)
        dirty = False
        while work:
            a, g = work.pop()
            i = a.get_id()
            h = n.seen.get(i)
            if h is not None and (h <= g or (h < self.gen_limit and g > 0)):
                continue
            if not dirty:
                n.seen = dict(n.seen)
                n.apps = dict(n.apps)
                dirty = True
            n.seen[i] = g
            d = a.decl().name()
            if h is None:
                n.apps[d] = n.apps.get(d, ()) + (a,)
            if g >= self.gen_limit:
                continue
            for cb in n.rules.get(d, ()):
                self._fire(n, cb, a, g, work)
            if '!' in d:
                for cb in n.rules.get(d.split('!')[0], ()):
                    self._fire(n, cb, a, g, work)
        return n

    def _fire(self, n, cb, a, g, work):
        self._cur_app = a
        self._cur_apps = n.apps
        self._cur_gen = g
        args = [a.arg(k) for k in range(a.num_args())]
        for f in cb(args):
            if f is True:
                continue
            if f is False:
                f = z3.BoolVal(False)
            n.facts.append(f)
            for x in apps_of(f):
                if x.get_id() not in n.seen:
                    work.append((x, g + 1))

    def sync(self, node):
        path = []
        n = node
        while n is not None and not (n.depth < len(self.stack) and self.stack[n.depth] is n):
            path.append(n)
            n = n.parent
        d = n.depth if n is not None else -1
        k = len(self.stack) - 1 - d
        if k > 0:
            self.solver.pop(k)
            del self.stack[d + 1:]
        for n in reversed(path):
            self.solver.push()
            if n.facts:
                self.solver.add(n.facts)
            self.stack.append(n)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget()

    def check(self, node, timeout=10000):
        self.tick()
        self.sync(node)
        self.solver.set('timeout', timeout)
        t = time.time()
        r = self.solver.check()
        dt = time.time() - t
        self.stats['queries'] += 1
        self.stats['time'] += dt
        if dt > 2 and self.opts.get('verbose'):
            print('   slow query %.1fs %s' % (dt, r))
        return r

    def feasible(self, st):
        h = st.node.memo.get('feas')
        if h is None:
            self.stats['feas'] += 1
            h = st.node.memo['feas'] = self.check(st.node, 3000) != z3.unsat
        return h

    def holds(self, st, g, timeout=3000):
        """quick entailment, no recording"""
        if isb(g):
            return g
        k = ('h', g.get_id())
        m = st.memo
        if m.get(k):
            return True
        n = self.extend(st.node, facts=[z3.Not(g)])
        r = self.check(n, timeout) == z3.unsat
        if r:
            m[k] = True
            self._keep.append(g)
        return r
    _keep = []

    def prove(self, st, g, what=None, timeout=None):
        if g is True:
            return True
        if g is False:
            g = z3.BoolVal(False)
        n = self.extend(st.node, facts=[z3.Not(g)])
        r = self.check(n, timeout or self.opts.get('timeout', 8000))
        if r == z3.unsat:
            self.last_dump(n)
            return True
        self.last = (r, self.solver.model() if r == z3.sat else None, n)
        if r == z3.unknown:
            r = self.retry(n)
            if r == z3.unsat:
                return True
        return False

    def last_dump(self, n):
        if self.dump is not None and self.record:
            self.dump(n)

    def retry(self, n):
        """fresh solver on the same facts"""
        if not self.record:
            return z3.unknown
        for tac in (None, 'smt'):
            s = z3.Solver() if tac is None else z3.Tactic(tac).solver()
            s.set('timeout', self.opts.get('timeout', 8000) * 2)
            x = n
            while x is not None:
                s.add(x.facts)
                x = x.parent
            t = time.time()
            r = s.check()
            self.stats['queries'] += 1
            self.stats['time'] += time.time() - t
            if r != z3.unknown:
                if r == z3.sat:
                    self.last = (r, s.model(), n)
                return r
        return z3.unknown

    # ------------------------------------------------------------ objects
    def bound_obj(self, o, hi=None, lo=None):
        x, c = self.head(o)
        if x is None or c:
            return
        if hi is not None:
            self.upper_of[x.decl().name()] = hi
        if lo is not None:
            self.lower_of[x.decl().name()] = lo

    def new_next(self, st):
        """forget how many objects exist (some may have been created)"""
        old = st.next
        N = fresh('next')
        self.parent_next[T._ATOM[N.m[0][0]].decl().name()] = old
        st.next = N
        return And(le(old, N), le(1, N))

    def head(self, t):
        """(z3 atom, offset) of a linear term with a single unit coefficient"""
        if isinstance(t, int) or len(t.m) != 1 or t.m[0][1] != 1:
            return None, 0
        return T._ATOM[t.m[0][0]], t.c

    def le_next(self, a, b):
        """a <= b follows from the order in which objects were created (a, b: object counts)"""
        for _ in range(60):
            d = const_diff(b, a)
            if d is not None:
                return d >= 0
            x, c = self.head(b)
            if x is None:
                return False
            if isinstance(a, int) and a <= 1 + c and x.decl().name().startswith('next!'):
                return True
            p = self.parent_next.get(x.decl().name())
            if p is None:
                return False
            if c < 0:
                return False
            b = add(p, c)
        return False

    def upper(self, t, depth=0):
        """an object count that bounds t from above (t < result), or None"""
        if isinstance(t, int):
            return t + 1
        x, c = self.head(t)
        if x is None or depth > 6:
            return None
        if x.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.upper(fromz(x.arg(1)), depth + 1), self.upper(fromz(x.arg(2)), depth + 1)
            if a is None or b is None or c > 0:
                return None
            return a if self.le_next(b, a) else (b if self.le_next(a, b) else None)
        n = x.decl().name()
        if n.startswith('next!'):
            return add(t, 1)
        if c > 0:
            return None
        if n in self.upper_of:
            return self.upper_of[n]
        b = BASES.get(n)
        if b is not None and b.cls == 'po' and b.wm is not None:
            u = self.upper(fromz(x.arg(0)), depth + 1)
            if u is not None and self.le_next(u, b.wm):
                return b.wm
        return None

    def lower(self, t, depth=0):
        if isinstance(t, int):
            return t
        x, c = self.head(t)
        if x is None or depth > 6:
            return None
        if x.decl().kind() == z3.Z3_OP_ITE:
            a, b = self.lower(fromz(x.arg(1)), depth + 1), self.lower(fromz(x.arg(2)), depth + 1)
            if a is None or b is None or c:
                return None
            return b if self.le_next(b, a) else (a if self.le_next(a, b) else None)
        n = x.decl().name()
        if n.startswith('next!'):
            return t
        if n in self.lower_of and c == 0:
            return self.lower_of[n]
        return None

    def apart(self, a, b):
        """a != b follows from the order in which objects were created"""
        k = (key(a), key(b))
        h = self._apart.get(k)
        if h is None:
            h = False
            ua, lb = self.upper(a), self.lower(b)
            if ua is not None and lb is not None and self.le_next(ua, lb):
                h = True
            else:
                ub, la = self.upper(b), self.lower(a)
                h = ub is not None and la is not None and self.le_next(ub, la)
            self._apart[k] = h
        return h

    def same_obj(self, st, a, b):
        """condition a==b, decided when possible"""
        d = const_diff(a, b)
        if d is not None:
            return d == 0
        if self.apart(a, b):
            return False
        if st is None:
            return z(a) == z(b)
        ka, kb = sorted((key(a), key(b)), key=str)
        k = ('so', ka, kb)
        h = st.memo.get(k)
        if h is not None and h != 'u':
            return h
        if h == 'u' and st.memo.get((k, 'at')) is st.node:
            return z(a) == z(b)
        e = z(a) == z(b)
        n = self.extend(st.node, facts=[e])
        if self.check(n, 2000) == z3.unsat:
            st.memo[k] = False
            return False
        n = self.extend(st.node, facts=[z3.Not(e)])
        if self.check(n, 2000) == z3.unsat:
            st.memo[k] = True
            return True
        st.memo[k] = 'u'
        st.memo[(k, 'at')] = st.node
        return e

    def is_fresh(self, st, o, N):
        g = le(N, o)
        if isb(g):
            return g
        if st is None:
            return g
        k = ('fr', key(o), key(N))
        h = st.memo.get(k)
        if h is not None:
            return h
        if self.holds(st, g, 2000):
            st.memo[k] = True
            return True
        if self.holds(st, Not(g), 2000):
            st.memo[k] = False
            return False
        return g

    def base_read(self, b, o, i):
        if isinstance(o, int) and o < 0 and o in self.constinit and b.cls in DATA:
            return self.const_read(b.cls, o, i)
        return atom(b.f(z(o), z(i)))

    # ------------------------------------------------------------ globals
    def glob(self, name):
        if name in self.globid:
            return self.globid[name]
        i = -(len(self.globid) + 2)
        self.globid[name] = i
        self.globs[i] = name
        g = self.M.globals.get(name)
        if g is not None and g['init'] is not None and (g['const'] or self.effectively_const(name)):
            self.constinit[i] = None
        return i

    def effectively_const(self, name):
        g = self.M.globals[name]
        if not g['internal']:
            return False
        h = self.M.__dict__.setdefault('_const', {})
        if name not in h:
            tot = len(re.findall(r'@%s\b(?![.\w])' % re.escape(name), self.M.body_text))
            ld = len(re.findall(r'load [^,]+, ptr @%s\b(?![.\w])' % re.escape(name), self.M.body_text))
            ro = len(re.findall(r'call [^\n]*@table_resize\(ptr noundef @%s\b(?![.\w])' % re.escape(name), self.M.body_text))
            h[name] = (tot == ld + ro) or self.only_read(name)
        return h[name]

    def only_read(self, name):
        """an internal global that is nowhere written: each use is a load, or an
        address inside it that is itself only loaded from"""
        me = r'@%s\b(?![.\w])' % re.escape(name)
        lines = [l for l in self.M.body_text.split('\n') if re.search(me, l)]
        if len(re.findall(me, self.M.text)) != sum(len(re.findall(me, l)) for l in lines) + 1:
            return False
        for fn in self.M.body_text.split('\ndefine '):
            body = fn.split('\n')
            for l in body:
                if not re.search(me, l) or re.search(r'= load [^,]+, ptr ' + me, l):
                    continue
                m = re.match(r'\s*(%[\w.]+) = getelementptr (?:inbounds )?[^@]*, ptr ' + me + r'[^@]*$', l)
                if not m:
                    return False
                v = re.escape(m.group(1)) + r'(?![\w.])'
                for u in body:
                    if u is not l and re.search(v, u) and not re.match(r'\s*%[\w.]+ = load [^,]+, ptr ' + v, u):
                        return False
        return True

    def global_size(self, o):
        nm = self.globs[o]
        g = self.M.globals.get(nm)
        if g is None:
            return None
        try:
            return self.M.size(g['type'])
        except ir.IRError:
            return None

    def const_cells(self, o):
        c = self.constinit.get(o)
        if c is None:
            g = self.M.globals[self.globs[o]]
            c = {k: {} for k in DATA}
            self.flatten(g['type'], g['init'], 0, c)
            self.constinit[o] = c
        return c

    def flatten(self, t, v, off, c):
        k = t[0]
        if v[0] == 'zero':
            if k == 'int':
                c['i%d' % t[1]][off] = 0
            elif k == 'ptr':
                c['po'][off] = 0
                c['pf'][off] = 0
            elif k == 'arr':
                es = self.M.size(t[2])
                for j in range(t[1]):
                    self.flatten(t[2], v, off + j * es, c)
            elif k in ('struct', 'lit'):
                offs, _ = self.M.layout(t)
                for o2, ft in zip(offs, self.M.fields(t)):
                    self.flatten(ft, v, off + o2, c)
            return
        if v[0] == 'str':
            for j, b in enumerate(v[1]):
                c['i8'][off + j] = b
        elif k == 'int':
            n = v[1]
            c['i%d' % t[1]][off] = n % 256 if t[1] == 8 else n
        elif k == 'ptr':
            p = self.const_ptr(v)
            c['po'][off] = p.o
            c['pf'][off] = p.f
        elif k == 'arr':
            es = self.M.size(t[2])
            for j, (tt, x) in enumerate(v[1]):
                self.flatten(tt, x, off + j * es, c)
        elif k in ('struct', 'lit'):
            offs, _ = self.M.layout(t)
            for o2, (tt, x) in zip(offs, v[1]):
                self.flatten(tt, x, off + o2, c)
        else:
            raise Unsupported('constant %r' % (t,))

    def const_ptr(self, v):
        if v[0] == 'null':
            return NULL
        if v[0] == 'glob':
            return Ptr(self.glob(v[1]), 0)
        if v[0] == 'ce' and v[1] == 'gep':
            b = self.const_ptr(v[3])
            return self.gep(None, v[2], b, [(t, x[1]) for t, x in v[4]])
        raise Unsupported('constant pointer %r' % (v,))

    def const_read(self, cls, o, i):
        if cls not in DATA:
            raise Unsupported('const read ' + cls)
        c = self.const_cells(o)[cls]
        if isinstance(i, int):
            if i in c:
                return c[i]
            return 0
        r = 0
        for off in sorted(c):
            r = ite(eq(i, off), c[off], r)
        return r

    def const_cstr(self, o, f):
        if o not in self.constinit:
            return None
        c = self.const_cells(o)['i8']
        out = bytearray()
        while f in c:
            if c[f] == 0:
                return bytes(out)
            out.append(c[f])
            f += 1
        return None

    # ------------------------------------------------------------ states
    def new_state(self):
        s = State()
        s.eng = self
        s.env, s.mem, s.ghost, s.memo, s.data = {}, {}, {}, {}, {}
        s.node = Node(self.root)
        N = fresh('next')
        s.next = N
        for c in CLS:
            s.mem[c] = Base(c, N)
        s.strs, s.events, s.wlog, s.trace = (), (), None, ()
        s.assume(le(1, N))
        # objects below the watermark: pointers found in memory are older than it
        s.rules([(s.mem['po'].name, self.po_rule(s.mem['po'], s.mem['pf'], N))])
        # sizes/kinds of globals
        return s

    def po_rule(self, bo, bf, N):
        def cb(args, st=None):
            t = self._cur_app
            out = [z3.Implies(args[0] < z(N), t < z(N))]
            if bf is not None:
                out.append(z3.Implies(t == 0, bf.f(args[0], args[1]) == 0))
            return out
        return cb

    def glob_facts(self, st, o):
        """size and kind of a global"""
        k = ('g', o)
        if k in st.memo:
            return
        st.memo[k] = True
        sz = self.global_size(o)
        fs = [eq(st.kind(o), 3)]
        if sz is not None:
            fs.append(eq(st.size(o), sz))
        st.assume(*fs)

    # ------------------------------------------------------------ strings
    def assume_str(self, st, p, n, val=None):
        m = st.mem['i8']
        if val is None:
            val = fresh('sv')
        st.assume(And(le(0, n), lt(n, STRMAX)), le(0, p.f), ne(p.o, 0),
                  le(add(add(p.f, n), 1), st.size(p.o)), ne(st.kind(p.o), 0))
        z0 = read(m, p.o, add(p.f, n), self, st)
        st.assume(eq(z0, 0))
        All('nz', 'i8', p.o, p.f, 1, 0, n, lambda k: ne(read(m, p.o, add(p.f, k), self, None), 0), mems=[m]).assume(self, st)
        sf = StrFact(m, p.o, p.f, n, val)
        st.strs = st.strs + (sf,)
        return sf

    def assume_str_if(self, st, g, p, n, val):
        """as assume_str, under the condition g"""
        m = st.mem['i8']
        st.assume(Imp(g, And(le(0, n), lt(n, STRMAX), le(0, p.f), ne(p.o, 0), le(add(add(p.f, n), 1), st.size(p.o)), ne(st.kind(p.o), 0), eq(read(m, p.o, add(p.f, n), self, st), 0))))
        All('nz', 'i8', p.o, p.f, 1, 0, n, lambda k: ne(read(m, p.o, add(p.f, k), self, None), 0), mems=[m], guard=g).assume(self, st)
        sf = StrFact(m, p.o, p.f, n, val)
        st.strs = st.strs + (sf,)
        return sf

    def unchanged(self, st, sf, lo=None):
        """bytes of string fact still as recorded"""
        if st.mem['i8'] is sf.mem:
            return True
        k = fresh('ku')
        lo = sf.f if lo is None else lo
        pc = And(le(lo, k), le(k, add(sf.f, sf.n)))
        a = read(st.mem['i8'], sf.o, k, self, st)
        b = read(sf.mem, sf.o, k, self, st)
        if key(a) == key(b):
            return True
        if not self.prove(st, Imp(pc, eq(a, b))):
            return False
        return self.alive(st, sf.o)

    def alive(self, st, o):
        return self.holds(st, ne(st.kind(o), 0))

    def find_str(self, st, p):
        """length of the string p points to (and its value id), or None"""
        c = st.const_str(p)
        if c is not None:
            return self.const_sf(st, p, c)
        hk = ('fs', key(p.o), key(p.f), st.mem['i8'].uid, st.mem['kind'].uid)
        if hk in st.memo:
            return st.memo[hk]
        r = self._find_str(st, p)
        if r is not None:
            st.memo[hk] = r
        return r

    def const_sf(self, st, p, c):
        k = ('cstr', p.o, p.f)
        self.glob_facts(st, p.o)
        return StrFact(st.mem['i8'], p.o, p.f, len(c), self.const_val(c))

    def const_val(self, c):
        return atom(z3.Int('sv_' + c.hex()))

    def suffix_val(self, v, d):
        """value of what is left of a text with value v when d bytes are dropped"""
        if isinstance(d, int) and d == 0:
            return v
        h, c = self.head(v)
        if h is not None and isinstance(c, int) and c == 0 and h.decl().name() == 'suffix':
            v, d = fromz(h.arg(0)), add(fromz(h.arg(1)), d)
        elif h is not None and c == 0 and h.num_args() == 0 and isinstance(d, int) and h.decl().name().startswith('sv_'):
            return self.const_val(bytes.fromhex(h.decl().name()[3:])[d:])
        return atom(SUFFIX(z(v), z(d)))

    def _find_str(self, st, p):
        # facts about exactly this position first
        a, b = [], []
        for sf in reversed(st.strs):
            (a if const_diff(p.f, sf.f) == 0 and const_diff(p.o, sf.o) == 0 else b).append(sf)
        for sf in a + b:
            if self.same_obj(st, p.o, sf.o) is not True:
                continue
            if not self.holds(st, And(le(sf.f, p.f), le(p.f, add(sf.f, sf.n)))):
                continue
            if not self.unchanged(st, sf, p.f):
                continue
            if const_diff(p.f, sf.f) == 0 or self.holds(st, eq(p.f, sf.f)):
                if sf.mem is st.mem['i8']:
                    return sf
                r = StrFact(st.mem['i8'], sf.o, sf.f, sf.n, sf.val)
            else:
                r = StrFact(st.mem['i8'], p.o, p.f, sub(add(sf.f, sf.n), p.f), self.suffix_val(sf.val, sub(p.f, sf.f)))
            self.reassert(st, r)
            st.strs = st.strs + (r,)
            return r
        # nonzero bytes, then a known string
        for sf in b:
            if self.same_obj(st, p.o, sf.o) is not True or const_diff(p.f, sf.f) == 0:
                continue
            d = sub(sf.f, p.f)
            if (isinstance(d, int) and d < 0) or not self.holds(st, And(le(0, p.f), le(p.f, sf.f))) or not self.unchanged(st, sf):
                continue
            m, k = st.mem['i8'], fresh('kp')
            if self.prove(st, Imp(And(le(0, k), lt(k, d)), ne(read(m, p.o, add(p.f, k), self, st), 0))):
                r = StrFact(m, p.o, p.f, add(d, sf.n), fresh('sv'))
                self.reassert(st, r)
                st.assume(eq(self.suffix_val(r.val, d), sf.val))
                st.strs = st.strs + (r,)
                return r
        # a terminator stored explicitly
        n = st.mem['i8']
        tried = 0
        while n is not None and not isinstance(n, Base) and tried < 6:
            if isinstance(n, Store) and isinstance(n.v, int) and n.v == 0 and self.same_obj(st, p.o, n.o) is True:
                tried += 1
                ln = sub(n.i, p.f)
                if self.holds(st, le(0, ln)):
                    m = st.mem['i8']
                    k = fresh('ks')
                    okz = self.holds(st, eq(read(m, p.o, n.i, self, st), 0))
                    if okz and self.prove(st, Imp(And(le(0, k), lt(k, ln)), ne(read(m, p.o, add(p.f, k), self, st), 0))) \
                            and self.holds(st, And(lt(ln, STRMAX), ne(st.kind(p.o), 0), lt(n.i, st.size(p.o)), le(0, p.f))):
                        r = StrFact(m, p.o, p.f, ln, fresh('sv'))
                        self.reassert(st, r)
                        st.strs = st.strs + (r,)
                        return r
            n = n.prev
        for h in st.data.get('strhooks', ()):
            r = h(self, st, p)
            if r is not None:
                return r
        return None

    def reassert(self, st, sf):
        """make the (proved) string facts available as rules on the current memory"""
        m, o, f, n = sf.mem, sf.o, sf.f, sf.n
        st.assume(And(le(0, n), lt(n, STRMAX)), eq(read(m, o, add(f, n), self, st), 0))
        All('nz', 'i8', o, f, 1, 0, n, lambda k: ne(read(m, o, add(f, k), self, None), 0), mems=[m]).assume(self, st)

    def prove_str(self, st, p, n, what):
        m = st.mem['i8']
        k = fresh('kp')
        return (self.prove(st, And(ne(p.o, 0), le(0, p.f), ne(st.kind(p.o), 0), le(0, n), lt(add(p.f, n), st.size(p.o)),
                                   eq(read(m, p.o, add(p.f, n), self, st), 0)), what)
                and self.prove(st, Imp(And(le(0, k), lt(k, n)), ne(read(m, p.o, add(p.f, k), self, st), 0)), what))

    # ------------------------------------------------------------ obligations
    def oblige(self, st, g, name, ins=None, props=None, assume=True):
        """g: formula or Clause"""
        cl = g if isinstance(g, Clause) else F(name, g, props)
        if self.record:
            where = self.M.line(ins.dbg) if ins is not None and not isinstance(ins, str) else (ins or '')
            k = (self.fname, name, where)
            ob = self.obs.get(k)
            if ob is None:
                ob = self.obs[k] = Ob(name, where, props if props is not None else cl.props)
            t0 = self.stats['time']
            ob.n += 1
            self.last = (None, None, None)
            ok = True
            if not self.feasible(st):
                ok = True
            else:
                ok = cl.prove(self, st, name)
            ob.time += self.stats['time'] - t0
            if ok:
                ob.ok += 1
            else:
                r, model, n = self.last
                if ob.status == 'ok':
                    ob.status = 'unknown' if r == z3.unknown else 'failed'
                    ob.model = self.extract(st, model)
                    ob.detail = self.describe(st)
                pr = ob.props
                if self.opts.get('prop') is None or counts_for(self.opts['prop'], pr, getattr(getattr(self, 'spec', None), 'name', None), name):
                    self.nfail = getattr(self, 'nfail', 0) + 1
                    if self.nfail >= self.opts.get('maxfail', 10 ** 6):
                        raise Enough()
                if self.opts.get('verbose'):
                    print('  FAILED %s %s %s  path=%s' % (self.fname, name, where, self.describe(st)))
                    if self.opts.get('verbose') > 1:
                        print('     goal', g if not isinstance(g, Clause) else g.name)
        if assume:
            cl.assume(self, st)

    def describe(self, st):
        t = list(st.trace)[-40:]
        return ' '.join(str(x) for x in t)

    def extract(self, st, model):
        if model is None:
            return None
        try:
            return self.extractor(model) if getattr(self, 'extractor', None) else None
        except Exception as e:
            return {'extract_error': repr(e)}

    # ------------------------------------------------------------ values
    def val(self, st, t, v):
        k = v[0]
        if k == 'reg':
            if v[1] not in st.env:
                raise Unsupported('register %s' % v[1])
            return st.env[v[1]]
        if t[0] == 'int':
            if k == 'int':
                if t[1] == 1:
                    return bool(v[1])
                if t[1] == 8:
                    return v[1] % 256
                w = 2 ** t[1]
                n = v[1] % w
                return n - w if n >= w // 2 else n
            if k == 'undef':
                return self.fresh_val(st, t, 'undef')
        if t[0] == 'ptr':
            if k == 'null':
                return NULL
            if k == 'glob':
                o = self.glob(v[1])
                self.glob_facts(st, o)
                return Ptr(o, 0)
            if k == 'ce' and v[1] == 'gep':
                b = self.val(st, ('ptr',), v[3])
                return self.gep(st, v[2], b, [(tt, self.val(st, tt, x)) for tt, x in v[4]])
            if k == 'undef':
                return Ptr(fresh('undefo'), fresh('undeff'))
        if t[0] == 'struct' or t[0] == 'lit' or t[0] == 'arr':
            return ('aggr', v)
        raise Unsupported('value %r : %r' % (v, t))

    def fresh_val(self, st, t, name):
        if t[0] == 'ptr':
            p = Ptr(fresh(name + 'o'), fresh(name + 'f'))
            st.assume(Imp(eq(p.o, 0), eq(p.f, 0)), lt(p.o, st.next))
            self.bound_obj(p.o, st.next)
            return p
        if t[0] == 'int':
            w = t[1]
            if w == 1:
                return freshb(name)
            x = fresh(name)
            if w == 8:
                st.assume(And(le(0, x), le(x, 255)))
            else:
                st.assume(And(le(-2 ** (w - 1), x), lt(x, 2 ** (w - 1))))
            return x
        raise Unsupported('fresh %r' % (t,))

    def gep(self, st, t, base, idx):
        off = base.f
        cur = t
        first = True
        for it, v in idx:
            if first:
                off = add(off, scale(v, self.M.size(cur)) if not isinstance(v, int) else v * self.M.size(cur))
                first = False
                continue
            if cur[0] in ('struct', 'lit'):
                offs, _ = self.M.layout(cur)
                off = add(off, offs[v])
                cur = self.M.fields(cur)[v]
            elif cur[0] == 'arr':
                cur = cur[2]
                off = add(off, scale(v, self.M.size(cur)))
            else:
                raise Unsupported('gep')
        return Ptr(base.o, off)

    def wrap(self, st, x, w):
        """canonical value of the mathematical integer x at width w"""
        if w == 8:
            if isinstance(x, int):
                return x % 256
            if self.holds(st, And(le(0, x), le(x, 255))):
                return x
            return imod(x, 256)
        M = 2 ** w
        h = M // 2
        if isinstance(x, int):
            n = x % M
            return n - M if n >= h else n
        if self.holds(st, And(le(-h, x), lt(x, h))):
            return x
        if self.holds(st, And(le(-h - M, x), lt(x, h + M))):
            return ite(lt(x, -h), add(x, M), ite(le(h, x), sub(x, M), x))
        return sub(imod(add(x, h), M), h)

    def uns(self, st, x, w):
        if w == 8:
            return x
        M = 2 ** w
        if isinstance(x, int):
            return x % M
        if self.holds(st, le(0, x)):
            return x
        return ite(lt(x, 0), add(x, M), x)

    def sgn(self, x, w):
        """signed mathematical value of canonical x"""
        if w != 8:
            return x
        if isinstance(x, int):
            return x - 256 if x >= 128 else x
        return ite(le(128, x), sub(x, 256), x)

    def canon(self, x, w):
        """canonical form from signed value in range"""
        if w == 8:
            if isinstance(x, int):
                return x % 256
            return ite(lt(x, 0), add(x, 256), x)
        return x

    def ucanon(self, x, w):
        """canonical form from unsigned value in range"""
        if w == 8:
            return x
        M = 2 ** w
        if isinstance(x, int):
            return x - M if x >= M // 2 else x
        return ite(le(M // 2, x), sub(x, M), x)

    def bitand(self, st, x, m, w):
        """x & constant m (x signed canonical, m mathematical two's complement pattern)"""
        M = 2 ** w
        m %= M
        if m == 0:
            return 0
        u = x if w == 8 else x      # div/mod of negatives are fine below bit w-1
        r = 0
        b = 0
        neg = bool(m >> (w - 1) & 1)
        if neg and w != 8:
            # clear the zero bits of m
            zm = (M - 1) ^ m
            return sub(x, self.bitand(st, x, zm, w))
        while b < w:
            if m >> b & 1:
                e = b
                while e < w and m >> e & 1:
                    e += 1
                y = strip_mod(u, 2 ** e) if not isinstance(u, int) else u
                if isinstance(y, int) or not self.holds(st, And(le(0, y), lt(y, 2 ** e))):
                    y = imod(y, 2 ** e)
                r = add(r, scale(idiv(y, 2 ** b), 2 ** b))
                b = e
            else:
                b += 1
        return r

    # ------------------------------------------------------------ instruction execution
    def cls_of(self, t):
        if t[0] == 'int':
            if t[1] == 1:
                return 'i8'
            c = 'i%d' % t[1]
            if c in DATA:
                return c
        if t[0] == 'ptr':
            return 'p'
        raise Unsupported('memory type %r' % (t,))

    def access(self, st, p, w, ins, what):
        if isinstance(p.o, int) and p.o < 0 and p.o in self.globs:
            self.glob_facts(st, p.o)
        self.oblige(st, And(ne(p.o, 0), ne(st.kind(p.o), 0), le(0, p.f), le(add(p.f, w), st.size(p.o))),
                    '%s within live object' % what, ins)

    def step(self, st, ins):
        """execute a non-terminator; returns list of states"""
        op, a = ins.op, ins.a
        if op == 'phi':
            raise Unsupported('phi order')
        if op == 'load':
            t, pv = a
            p = self.val(st, ('ptr',), pv)
            self.access(st, p, self.M.size(t), ins, 'read')
            c = self.cls_of(t)
            if c == 'p':
                v = st.rdptr(p.o, p.f)
                st.touch(v.o)
            else:
                v = st.rd(c, p.o, p.f)
                st.touch(v)
                if t == ('int', 1):
                    v = ne(v, 0)
            st.env[ins.res] = v
            return [st]
        if op == 'store':
            t, vv, pv = a
            p = self.val(st, ('ptr',), pv)
            self.access(st, p, self.M.size(t), ins, 'write')
            self.may_write(st, p, self.M.size(t), ins)
            c = self.cls_of(t)
            v = self.val(st, t, vv)
            if c == 'p':
                st.wrptr(p.o, p.f, v)
            else:
                if t == ('int', 1):
                    v = ite(v, 1, 0)
                st.wr(c, p.o, p.f, v)
            return [st]
        if op == 'gep':
            t, b, idx, inb = a
            st.env[ins.res] = self.gep(st, t, self.val(st, ('ptr',), b), [(tt, self.sgn(self.val(st, tt, x), tt[1])) for tt, x in idx])
            return [st]
        if op in ir.BINOPS:
            st.env[ins.res] = self.binop(st, ins)
            return [st]
        if op == 'icmp':
            st.env[ins.res] = self.icmp(st, ins)
            return [st]
        if op in ('sext', 'zext', 'trunc'):
            t, x, t2 = a
            v = self.val(st, t, x)
            w, w2 = t[1], t2[1]
            if w == 1:
                if op == 'sext':
                    r = ite(v, 255 if w2 == 8 else -1, 0)
                else:
                    r = ite(v, 1, 0)
            elif op == 'sext':
                r = self.canon(self.sgn(v, w), w2)
            elif op == 'zext':
                r = self.uns(st, v, w) if w != 8 else v
            else:
                if w2 == 1:
                    r = eq(imod(v, 2), 1)
                else:
                    r = self.wrap(st, v, w2)
            st.env[ins.res] = r
            return [st]
        if op == 'ptrtoint':
            p = self.val(st, ('ptr',), a[1])
            if p.o == 0 if isinstance(p.o, int) else False:
                st.env[ins.res] = p.f
            else:
                st.env[ins.res] = add(atom(ADDR(z(p.o))), p.f)
            return [st]
        if op in ('bitcast', 'freeze'):
            st.env[ins.res] = self.val(st, a[0], a[1])
            return [st]
        if op == 'select':
            c, t1, x, y = a
            cv = self.val(st, ('int', 1), c)
            xv, yv = self.val(st, t1, x), self.val(st, t1, y)
            if isb(cv):
                st.env[ins.res] = xv if cv else yv
                return [st]
            if t1[0] == 'int':
                st.env[ins.res] = bite(cv, xv, yv) if t1[1] == 1 else ite(cv, xv, yv)
                return [st]
            out = []
            for g, v in ((cv, xv), (Not(cv), yv)):
                s = st.copy()
                s.assume(g)
                if s.feasible():
                    s.env[ins.res] = v
                    out.append(s)
            return out
        if op == 'alloca':
            t, n = a
            nv = self.val(st, ('int', 32), n)
            p = st.alloc(scale(nv, self.M.size(t)) if not isinstance(nv, int) else nv * self.M.size(t), kind=2)
            st.assume(eq(role(p.o), 0))
            st.env[ins.res] = p
            return [st]
        if op == 'call':
            return self.call(st, ins)
        raise Unsupported('%s: %s' % (op, ins.text.strip()[:80]))

    def may_write(self, st, p, w, ins):
        """frame: target is new, or in the contract's modifies set"""
        if self.frame is None:
            return
        g = self.frame(st, p, w)
        self.oblige(st, g, 'write allowed by the contract frame', ins)

    def binop(self, st, ins):
        t, x, y, flags = ins.a
        op = ins.op
        w = t[1]
        a, b = self.val(st, t, x), self.val(st, t, y)
        if w == 1:
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op == 'xor':
                if isb(b):
                    return Not(a) if b else a
                if isb(a):
                    return Not(b) if a else b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if op == 'add':
            return self.wrap(st, add(a, b), w)
        if op == 'sub':
            return self.wrap(st, sub(a, b), w)
        if op == 'mul':
            return self.wrap(st, mul(self.sgn(a, w), self.sgn(b, w)), w)
        if op == 'and':
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if isinstance(a, int):
                    return self.wrap(st, (a & b), w)
                r = self.bitand(st, a, b, w)
                return r
        if op == 'or' and isinstance(b, int) and isinstance(a, int):
            return self.wrap(st, a | b, w)
        if op == 'or':
            # a|b == a+b-(a&b); with constant
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                return self.wrap(st, sub(add(a, b), self.bitand(st, a, b, w)), w)
        if op in ('or', 'xor') and not isinstance(a, int) and not isinstance(b, int):
            # no bit in common: low bits of one, the other a multiple
            for x, y in ((a, b), (b, a)):
                k = next((k for k in (4, 6, 8, 12, 16) if k < w and self.holds(st, And(le(0, y), lt(y, 2 ** k)))), None)
                if k is not None and self.holds(st, eq(imod(x, 2 ** k), 0)):
                    return self.wrap(st, add(x, y), w)
        if op == 'xor':
            if isinstance(a, int) and not isinstance(b, int):
                a, b = b, a
            if isinstance(b, int) and isinstance(a, int):
                return self.wrap(st, a ^ b, w)
            if isinstance(b, int):
                if b == -1 or (w == 8 and b == 255):
                    return sub(-1, a) if w != 8 else sub(255, a)
                return self.wrap(st, sub(add(a, b), scale(self.bitand(st, a, b, w), 2)), w)
        if op == 'shl' and isinstance(b, int):
            return self.wrap(st, scale(a, 2 ** b), w)
        if op == 'lshr' and isinstance(b, int):
            return self.ucanon(idiv(self.uns(st, a, w), 2 ** b), w)
        if op == 'ashr' and isinstance(b, int):
            return self.canon(idiv(self.sgn(a, w), 2 ** b), w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isinstance(b, int) and b > 0 and op in ('udiv', 'urem'):
                u = self.uns(st, a, w)
                return self.ucanon(idiv(u, b) if op == 'udiv' else imod(u, b), w)
            if isinstance(b, int) and b > 0:
                s = self.sgn(a, w)
                q = ite(le(0, s), idiv(s, b), scale(idiv(scale(s, -1), b), -1))
                return self.canon(q if op == 'sdiv' else sub(s, scale(q, b)), w)
            self.oblige(st, ne(b, 0), 'no division by zero', ins)
            if op == 'urem':
                ua, ub = self.uns(st, a, w), self.uns(st, b, w)
                f = z3.Function('urem', IntS, IntS, IntS)
                r = atom(f(z(ua), z(ub)))
                st.assume(And(le(0, r), lt(r, ub)), le(r, ua))
                return self.ucanon(r, w)
        f = z3.Function('op_%s_%d' % (op, w), IntS, IntS, IntS)
        r = atom(f(z(a), z(b)))
        if w == 8:
            st.assume(And(le(0, r), le(r, 255)))
        else:
            st.assume(And(le(-2 ** (w - 1), r), lt(r, 2 ** (w - 1))))
        if op in ('and', 'or') and w != 8:
            st.assume(Imp(And(le(0, a), le(0, b)), le(0, r)))
        return r

    def icmp(self, st, ins):
        pred, t, x, y = ins.a
        a, b = self.val(st, t, x), self.val(st, t, y)
        if t[0] == 'ptr':
            if pred in ('eq', 'ne'):
                if pk(b) == (0, 0) or pk(a) == (0, 0):
                    p = a if pk(b) == (0, 0) else b
                    e = eq(p.o, 0)
                else:
                    e = And(eq(a.o, b.o), eq(a.f, b.f))
                return e if pred == 'eq' else Not(e)
            self.oblige(st, eq(a.o, b.o), 'pointers compared within one object', ins)
            x, y = a.f, b.f
            return {'ult': lt, 'ule': le, 'ugt': gt, 'uge': ge, 'slt': lt, 'sle': le, 'sgt': gt, 'sge': ge}[pred](x, y)
        if t[1] == 1:
            e = Iff(a, b)
            return e if pred == 'eq' else Not(e)
        w = t[1]
        if self.loopcmp is not None:
            self.loopcmp.append((a, b))
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return ne(a, b)
        if pred[0] == 's':
            a, b = self.sgn(a, w), self.sgn(b, w)
        else:
            a, b = self.uns(st, a, w), self.uns(st, b, w)
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)
    loopcmp = None

    # ------------------------------------------------------------ calls
    def call(self, st, ins):
        t, cv, args = ins.a
        if cv[0] != 'glob':
            raise Unsupported('indirect call')
        nm = cv[1]
        vs = [self.val(st, at, av) for at, av in args if at[0] != 'metadata']
        m = re.match(r'llvm\.(\w+)', nm)
        if m:
            nm = 'llvm.' + m.group(1)
        c = self.contracts.get(nm)
        if c is None:
            raise Unsupported('call to %s, which has no contract' % nm)
        outs = c.apply(self, st, vs, ins, t)
        res = []
        for s, r in outs:
            if ins.res is not None:
                s.env[ins.res] = r
            res.append(s)
        return res

    # ------------------------------------------------------------ control
    def run_from(self, st, fn, block, pred, loop):
        """explore from block until control leaves `loop` (LoopInfo or None).
        returns outcomes: ('ret',st,val) ('exit',st,target,pred) ('back',st,pred)"""
        outs = []
        work = [(st, block, pred, None)]
        while work:
            st, bn, pred, idx = work.pop()
            self.tick()
            b = fn.blocks[bn]
            if idx is None:
                if loop is not None and bn == loop.header and pred is not None:
                    outs.append(('back', st, pred))
                    continue
                if loop is not None and bn not in loop.body:
                    outs.append(('exit', st, bn, pred))
                    continue
                if bn in fn.loops and not (loop is not None and bn == loop.header):
                    for o in self.do_loop(st, fn, bn, pred):
                        if o[0] == 'ret':
                            outs.append(o)
                        else:
                            work.append((o[1], o[2], o[3], None))
                    continue
                if pred is not None:
                    self.phis(st, b, pred)
                idx = sum(1 for i in b.ins if i.op == 'phi')
            n = len(b.ins)
            forked = False
            while idx < n - 1:
                ss = self.step(st, b.ins[idx])
                idx += 1
                if len(ss) == 1:
                    st = ss[0]
                else:
                    for s in ss[::-1]:
                        work.append((s, bn, pred, idx))
                    forked = True
                    break
            if forked:
                continue
            tm = b.ins[-1]
            if tm.op == 'ret':
                v = None if tm.a[1] is None else self.val(st, tm.a[0], tm.a[1])
                outs.append(('ret', st, v, tm))
            elif tm.op == 'unreachable':
                pass
            elif tm.op == 'br':
                if len(tm.a) == 1:
                    work.append((st, tm.a[0], bn, None))
                else:
                    c = self.val(st, ('int', 1), tm.a[0])
                    for g, tgt, lab in ((Not(c), tm.a[2], 'F'), (c, tm.a[1], 'T')):
                        if g is False:
                            continue
                        s = st.copy()
                        if g is not True:
                            s.assume(g)
                            if not s.feasible():
                                continue
                        s.trace = s.trace + (self.M.line(tm.dbg).split(':')[-1] + lab,)
                        work.append((s, tgt, bn, None))
            elif tm.op == 'switch':
                t, v, d, cs = tm.a
                x = self.val(st, t, v)
                rest = []
                bytgt = OrderedDict()
                for k, tgt in cs:
                    kk = k % 256 if t[1] == 8 else k
                    e = eq(x, kk)
                    rest.append(Not(e))
                    bytgt.setdefault(tgt, []).append((e, kk))
                for e, tgt, lab in [(And(*rest), d, 'def')] + [(e, tg, kk) for tg, l in bytgt.items() for e, kk in l]:
                    if e is False:
                        continue
                    s = st.copy()
                    s.assume(e)
                    if e is not True and not s.feasible():
                        continue
                    s.trace = s.trace + ('%s=%s' % (self.M.line(tm.dbg).split(':')[-1], lab),)
                    work.append((s, tgt, bn, None))
            else:
                raise Unsupported(tm.op)
        return outs

    def phis(self, st, b, pred):
        new = {}
        for i in b.ins:
            if i.op != 'phi':
                break
            t, inc = i.a
            for v, src in inc:
                if src == pred:
                    new[i.res] = self.val(st, t, v)
                    break
            else:
                raise Unsupported('phi pred')
        st.env.update(new)

    def phi_vals(self, st, b, pred):
        out = OrderedDict()
        for i in b.ins:
            if i.op != 'phi':
                break
            t, inc = i.a
            for v, src in inc:
                if src == pred:
                    out[i.res] = (t, self.val(st, t, v))
                    break
        return out

    def do_loop(self, st, fn, header, pred):
        from loops import do_loop
        return do_loop(self, st, fn, header, pred)
