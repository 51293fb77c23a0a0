"""SMT vocabulary: the sort of Python values and the functions over it."""
import z3

z3.set_param('smt.random_seed', 1)
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()

_V = z3.Datatype('Val')
_V.declare('VNone')
_V.declare('VBool', ('bv', B))
_V.declare('VInt', ('iv', I))
_V.declare('VFlt', ('fv', I))        # opaque float id: FVAL / FNAN
_V.declare('VStr', ('sv', I))        # opaque string id
_V.declare('VRef', ('rv', I))        # object reference: CLS, LEN, AT, ...
Val = _V.create()
VNone, VBool, VInt, VFlt, VStr, VRef = Val.VNone, Val.VBool, Val.VInt, Val.VFlt, Val.VStr, Val.VRef
bv, iv, fv, sv, rv = Val.bv, Val.iv, Val.fv, Val.sv, Val.rv
is_none, is_bool, is_int, is_flt, is_str, is_ref = (Val.is_VNone, Val.is_VBool, Val.is_VInt,
    Val.is_VFlt, Val.is_VStr, Val.is_VRef)

def F(name, *sorts):
    return z3.Function(name, *sorts)

CLS = F('CLS', I, I)
LEN = F('LEN', I, I)
AT = F('AT', I, I, Val)
HAS = F('HAS', I, Val, B)
GET = F('GET', I, Val, Val)
KEYAT = F('KEYAT', I, I, Val)
KIDX = F('KIDX', I, Val, I)
HASHABLE = F('HASHABLE', I, B)
SLEN = F('SLEN', I, I)
CAT = F('CAT', I, I, I)
FVAL = F('FVAL', I, R)
FNAN = F('FNAN', I, B)
ORD = F('ORD', I, R)        # order key of dates, times, decimals
AWARE = F('AWARE', I, B)    # datetimes and times: has a timezone
NAN = F('NAN', I, B)        # decimals
VEQ = F('VEQ', Val, Val, B)
SORD = F('SORD', I, R)

_uf = {}
def uf(name, sorts, out):
    key = (name,) + tuple(s.get_id() for s in sorts) + (out.get_id(),)
    if key not in _uf:
        _uf[key] = z3.Function(name, *(list(sorts) + [out]))
    return _uf[key]

_main = z3.main_ctx()
def apply(decl, args):
    """decl(*args) for arguments of the right sorts"""
    n = len(args)
    a = (z3.Ast * n)()
    for i in range(n):
        a[i] = args[i].as_ast()
    return z3.z3._to_expr_ref(z3.Z3_mk_app(_main.ref(), decl.ast, n, a), _main)

_call = z3.FuncDeclRef.__call__
def fast_call(self, *args):
    for a in args:
        if not isinstance(a, z3.ExprRef):
            return _call(self, *args)
    return apply(self, args)
z3.FuncDeclRef.__call__ = fast_call

def app(name, args, out):
    return apply(uf(name, [a.sort() for a in args], out), args)

# terms are shared, so what is computed from a term can be kept
_kept = {}
def kept(fn):
    """memoises fn(*args), whose arguments are terms and hashable host objects"""
    def wrapper(*args):
        key = (fn,) + tuple(a.get_id() if isinstance(a, z3.AstRef) else (a,) for a in args)
        e = _kept.get(key)
        if e is None:
            e = _kept[key] = (args, fn(*args))      # the arguments stay alive, and their ids taken
        return e[1]
    return wrapper

_simplify = z3.simplify
_simple = {}
def simplify(t, *rest):
    if rest:
        return _simplify(t, *rest)
    i = t.get_id()
    e = _simple.get(i)
    if e is None:
        r = _simplify(t)
        e = _simple[i] = (t, r)
        _simple.setdefault(r.get_id(), (r, r))
    return e[1]
z3.simplify = simplify

# connectives without the coercions of the API
_mcr = _main.ref()
_new = z3.z3._to_expr_ref
_and, _or, _not, _implies, _eq = z3.And, z3.Or, z3.Not, z3.Implies, z3.ExprRef.__eq__
def _nary(mk, slow):
    def f(*args):
        if len(args) == 1 and isinstance(args[0], (list, tuple)):
            args = args[0]
        n = len(args)
        a = (z3.Ast * n)()
        for i in range(n):
            x = args[i]
            if x is True or x is False:
                x = z3.BoolVal(x)
            elif not isinstance(x, z3.BoolRef):
                return slow(*args)
            a[i] = x.ast
        return z3.BoolRef(mk(_mcr, n, a), _main)
    return f
z3.And = _nary(z3.Z3_mk_and, _and)
z3.Or = _nary(z3.Z3_mk_or, _or)
def _fnot(x):
    if isinstance(x, z3.BoolRef):
        return z3.BoolRef(z3.Z3_mk_not(_mcr, x.ast), _main)
    return _not(x)
z3.Not = _fnot
def _fimplies(x, y):
    if isinstance(x, z3.BoolRef) and isinstance(y, z3.BoolRef):
        return z3.BoolRef(z3.Z3_mk_implies(_mcr, x.ast, y.ast), _main)
    return _implies(x, y)
z3.Implies = _fimplies
def _feq(self, other):
    if isinstance(other, z3.ExprRef) and self.sort_kind() == other.sort_kind():
        return z3.BoolRef(z3.Z3_mk_eq(_mcr, self.ast, other.ast), _main)
    return _eq(self, other)
z3.ExprRef.__eq__ = _feq

# string literals: distinct negative ids
_lits = {}
_litrev = {}
def strlit(s):
    if s not in _lits:
        code = -1 - len(_lits)
        _lits[s] = z3.IntVal(code)
        _litrev[code] = s
    return _lits[s]
def lit_of(code):
    """python string if the term is a literal's id"""
    if z3.is_int_value(code):
        return _litrev.get(code.as_long())
    return None

_flits = {}
_flitrev = {}
def fltlit(f):
    key = repr(f)
    if key not in _flits:
        code = -1 - len(_flits)
        _flits[key] = (z3.IntVal(code), f)
        _flitrev[code] = f
    return _flits[key][0]
