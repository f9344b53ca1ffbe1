"""Integer terms in linear normal form over z3 atoms, with constant folding.

An integer is a Python int or an L.  Booleans are Python bools or z3 BoolRefs.
"""
import z3
import z3fast

z3.z3.Z3_DEBUG = False          # argument checks of the z3 bindings (slow)

_ATOM = {}          # id -> z3 term (kept alive)
_serial = [0]


class L:
    __slots__ = ('c', 'm', '_z', '_k')

    def __init__(self, c, m):
        self.c, self.m = c, m       # m: tuple of (atom id, coef), sorted
        self._z = None
        self._k = (c, m)

    def __repr__(self):
        return str(z(self))

    def __add__(a, b): return add(a, b)
    def __radd__(a, b): return add(b, a)
    def __sub__(a, b): return sub(a, b)
    def __rsub__(a, b): return sub(b, a)
    def __mul__(a, b): return mul(a, b)
    def __rmul__(a, b): return mul(b, a)
    def __neg__(a): return scale(a, -1)

    def __eq__(a, b): raise TypeError("use eq()")
    __hash__ = None


def key(a):
    return a if isinstance(a, int) else a._k


def atom(t):
    i = t.get_id()
    _ATOM[i] = t
    return L(0, ((i, 1),))


def mk(c, d):
    m = tuple(sorted((i, k) for i, k in d.items() if k))
    return L(c, m) if m else c


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return L(b.c + a, b.m) if a else b
    if isinstance(b, int):
        return L(a.c + b, a.m) if b else a
    d = dict(a.m)
    for i, k in b.m:
        d[i] = d.get(i, 0) + k
    return mk(a.c + b.c, d)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    if k == 0:
        return 0
    return L(a.c * k, tuple((i, q * k) for i, q in a.m))


def sub(a, b):
    return add(a, scale(b, -1))


MULF = z3.Function('mulf', z3.IntSort(), z3.IntSort(), z3.IntSort())


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    r = a.c * b.c
    r = add(r, scale(L(0, a.m), b.c))
    r = add(r, scale(L(0, b.m), a.c))
    for i, p in a.m:
        for j, q in b.m:
            x, y = (i, j) if i <= j else (j, i)
            r = add(r, scale(atom(MULF(_ATOM[x], _ATOM[y])), p * q))
    return r


_ctx = z3.main_ctx()
_cref = _ctx.ref()
_core = z3.z3core
_raw = {n: getattr(_core, n).__defaults__[0].f for n in ('Z3_mk_le', 'Z3_mk_eq', 'Z3_mk_and', 'Z3_mk_or', 'Z3_mk_not', 'Z3_mk_implies', 'Z3_mk_add', 'Z3_mk_ite')}
_getid = _core.Z3_get_ast_id.__defaults__[0].f
z3.AstRef.get_id = lambda self: _getid(_cref, self.ast)
_memo = {}
_Ast = z3.z3types.Ast
_err = _core.Z3_mk_le.__defaults__[0].get_error_code


def _made(k, r, cls):
    """wrap a new term (errors of the solver library are never ignored)"""
    if _err(_cref):
        raise ValueError('ill-formed term %s' % (k[0],))
    t = cls(r, _ctx)
    _memo[k] = t
    return t


def _bin(op, a, b, cls=z3.BoolRef):
    k = (op, a.get_id(), b.get_id())
    t = _memo.get(k)
    if t is None:
        t = _made(k, _raw[op](_cref, a.as_ast(), b.as_ast()), cls)
    return t


def _nary(op, xs, cls=z3.BoolRef):
    k = (op,) + tuple(x.get_id() for x in xs)
    t = _memo.get(k)
    if t is None:
        n = len(xs)
        arr = (_Ast * n)()
        for i in range(n):
            arr[i] = xs[i].as_ast()
        t = _made(k, _raw[op](_cref, n, arr), cls)
    return t


_Z = {}
_INTS = {}


def z(a):
    """to z3"""
    if isinstance(a, L):
        if a._z is None:
            r = _Z.get(a._k)
            if r is None:
                ts = []
                for i, k in a.m:
                    t = _ATOM[i]
                    ts.append(t if k == 1 else k * t)
                if a.c:
                    ts.append(z(a.c))
                r = _Z[a._k] = ts[0] if len(ts) == 1 else _nary('Z3_mk_add', ts, z3.ArithRef)
                _FROM[r.get_id()] = (r, a)
            a._z = r
        return a._z
    if isinstance(a, bool):
        return z3.BoolVal(a)
    if isinstance(a, int):
        r = _INTS.get(a)
        if r is None:
            r = _INTS[a] = z3.IntVal(a)
        return r
    return a


_FROM = {}


def fromz(t):
    """z3 Int term -> linear form"""
    i = t.get_id()
    h = _FROM.get(i)
    if h is not None:
        return h[1]
    if z3.is_int_value(t):
        r = t.as_long()
    elif z3.is_add(t):
        r = 0
        for c in t.children():
            r = add(r, fromz(c))
    elif z3.is_sub(t):
        ch = t.children()
        r = fromz(ch[0])
        for c in ch[1:]:
            r = sub(r, fromz(c))
    elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        r = scale(fromz(t.arg(1)), t.arg(0).as_long())
    elif t.decl().kind() == z3.Z3_OP_UMINUS:
        r = scale(fromz(t.arg(0)), -1)
    else:
        r = atom(t)
    _FROM[i] = (t, r)
    return r


def const_diff(a, b):
    """a-b when it is a constant, else None"""
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    d = sub(a, b)
    return d if isinstance(d, int) else None


# ------------------------------------------------------------------ booleans
def isb(x):
    return isinstance(x, bool)


def eq(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return d == 0
    return _bin('Z3_mk_eq', z(a), z(b))


def ne(a, b):
    return Not(eq(a, b))


def le(a, b):
    d = sub(b, a)
    if isinstance(d, int):
        return d >= 0
    return _bin('Z3_mk_le', z(a), z(b))


def lt(a, b):
    return le(add(a, 1), b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def And(*xs):
    out = []
    for x in xs:
        if isb(x):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else _nary('Z3_mk_and', out)


def Or(*xs):
    out = []
    for x in xs:
        if isb(x):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else _nary('Z3_mk_or', out)


def Not(x):
    if isb(x):
        return not x
    k = ('not', x.get_id())
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = x.arg(0) if z3.is_not(x) else z3.Not(x)
        _memo[('keep', x.get_id())] = x
    return r


def Imp(a, b):
    if isb(a):
        return b if a else True
    if isb(b):
        return True if b else Not(a)
    return _bin('Z3_mk_implies', a, b)


def Iff(a, b):
    if isb(a):
        return b if a else Not(b)
    if isb(b):
        return a if b else Not(a)
    return _bin('Z3_mk_eq', a, b)


def ite(c, a, b):
    """integer if-then-else"""
    if isb(c):
        return a if c else b
    if key(a) == key(b):
        return a
    return atom(z3.If(c, z(a), z(b)))


def bite(c, a, b):
    return And(Imp(c, a), Imp(Not(c), b))


def fresh_name(base):
    _serial[0] += 1
    return '%s!%d' % (base, _serial[0])


def serial():
    return _serial[0]


def fresh(base):
    return atom(z3.Int(fresh_name(base)))


def freshb(base):
    return z3.Bool(fresh_name(base))


def idiv(a, k):
    """floor division by a positive constant"""
    if isinstance(a, int):
        return a // k
    if a.c % k == 0 and all(q % k == 0 for _, q in a.m):
        return L(a.c // k, tuple((i, q // k) for i, q in a.m))
    return atom(z(a) / z3.IntVal(k))


def imod(a, k):
    if isinstance(a, int):
        return a % k
    a = strip_mod(a, k)
    if isinstance(a, int):
        return a % k
    c = a.c % k
    m = tuple((i, q) for i, q in a.m if q % k)
    if not m:
        return c
    return atom(z(L(a.c, a.m)) % z3.IntVal(k))


def strip_mod(a, k):
    """something congruent to a modulo k, without case distinctions that do not matter modulo k"""
    r = a
    for i, q in a.m:
        x = _ATOM[i]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            u, v = fromz(x.arg(1)), fromz(x.arg(2))
            d = const_diff(u, v)
            if d is not None and (d * q) % k == 0:
                r = add(sub(r, scale(atom(x), q)), scale(v, q))
                return strip_mod(r, k) if not isinstance(r, int) else r
    return r


def within(t, limit):
    """every symbol of t was created before serial number limit"""
    for x in ([_ATOM[i] for i, _ in t.m] if isinstance(t, L) else ([] if isinstance(t, (int, bool)) else [t])):
        seen = set()
        st = [x]
        while st:
            y = st.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_app(y):
                if y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = y.decl().name()
                    if '!' in n and int(n[n.rindex('!') + 1:]) > limit:
                        return False
                st += y.children()
    return True
