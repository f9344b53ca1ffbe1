"""The z3 Python bindings with less overhead on the few calls made millions of times (no change of meaning): the error
check after each call is left out for calls that cannot fail, and terms of sort Bool and Int are wrapped directly."""
import ctypes
import z3
from z3 import z3 as Z, z3core

_ctx = z3.main_ctx()
_c = _ctx.ref()


def _fn(name, res):
    at = ctypes.cast(getattr(z3core, name).__defaults__[0].f, ctypes.c_void_p).value
    return ctypes.CFUNCTYPE(res, ctypes.c_void_p, ctypes.c_void_p)(at)


def install():
    get_id = _fn('Z3_get_ast_id', ctypes.c_uint)
    inc = _fn('Z3_inc_ref', None)
    dec = _fn('Z3_dec_ref', None)
    kind = _fn('Z3_get_ast_kind', ctypes.c_uint)
    sort = _fn('Z3_get_sort', ctypes.c_void_p)
    bools, ints = z3.BoolSort().ast.value, z3.IntSort().ast.value
    keep = (z3.BoolSort(), z3.IntSort())
    slow_expr = Z._to_expr_ref

    def init(self, ast, ctx=None):
        self.ast = ast
        self.ctx = _ctx if ctx is None else ctx
        inc(self.ctx.ctx, ast)

    def delete(self, dec=dec):
        a, c = self.ast, self.ctx.ctx
        if c is not None and a is not None:
            dec(c, a)
            self.ast = None

    def ident(self):
        return get_id(self.ctx.ctx, self.ast)

    def to_expr(a, ctx, keep=keep):
        if ctx is _ctx and not isinstance(a, Z.Pattern):
            k = kind(_c, a)
            if k != Z.Z3_QUANTIFIER_AST:
                s = sort(_c, a)
                if s == bools:
                    return Z.BoolRef(a, ctx)
                if s == ints:
                    return Z.IntNumRef(a, ctx) if k == Z.Z3_NUMERAL_AST else Z.ArithRef(a, ctx)
        return slow_expr(a, ctx)

    Z.AstRef.__init__ = init
    Z.AstRef.__del__ = delete
    Z.AstRef.get_id = ident
    if 'get_id' in Z.ExprRef.__dict__:
        Z.ExprRef.get_id = ident
    Z._to_expr_ref = to_expr
    for n in ('Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_get_ast_kind', 'Z3_get_sort', 'Z3_get_sort_kind', 'Z3_get_app_num_args', 'Z3_is_eq_ast', 'Z3_get_domain', 'Z3_get_arity'):
        f = getattr(z3core, n)
        if f.__defaults__:
            f.__defaults__[0].Check = lambda ctx: None


install()
