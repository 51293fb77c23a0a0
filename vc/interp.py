"""The symbolic interpreter: executes the functions of /repo, read from their source files."""
import ast
import builtins
import types
import z3
from .smt import *
from .core import *

REPO = '/repo'
_trees = {}
_defs = {}

def tree_of(path):
    if path not in _trees:
        with open(path) as f:
            _trees[path] = ast.parse(f.read(), path)
    return _trees[path]

def def_of(func):
    """The syntax tree of a host function."""
    code = func.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name)
    if key in _defs:
        return _defs[key]
    tree = tree_of(code.co_filename)
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.Lambda)):
            name = getattr(node, 'name', '<lambda>')
            line = min([node.lineno] + [d.lineno for d in getattr(node, 'decorator_list', ())])
            if name == code.co_name and line == code.co_firstlineno:
                _defs[key] = node
                return node
    raise Unsupported('no source for %s' % func)

INTERPRETED = [REPO]

def interpretable(func):
    if not isinstance(func, types.FunctionType):
        return False
    f = func.__code__.co_filename
    return any(f.startswith(p) for p in INTERPRETED)

class Frame(object):
    __slots__ = ('locals', 'parent', 'globs', 'func', 'serial', 'cells')
    def __init__(self, ctx, globs, parent=None, func=None):
        self.locals, self.parent, self.globs, self.func = {}, parent, globs, func
        self.serial = ctx.tick()
        self.cells = None

class BuiltinMethod(object):
    __slots__ = ('recv', 'name')
    def __init__(self, recv, name):
        self.recv, self.name = recv, name

class UserErr(Exception):
    """An exception of unknown class, raised by a user supplied callable."""

class Slice(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

class View(object):
    """dict.keys() / .values() / .items()"""
    def __init__(self, d, what):
        self.d, self.what = d, what

class Iter(object):
    """The elements to iterate over, as a list of segments."""
    def __init__(self, segs):
        self.segs = segs

def symseg(ref):
    return SymSeg(LEN(ref), lambda i: Sym(AT(ref, i)), ref)

_simple = {}
_keep = []
def simple_block(stmts):
    """assignments only (syntactically), so that the two sides of a condition may be joined"""
    for s in stmts:
        key = id(s)
        if key not in _simple:
            if isinstance(s, (ast.Pass,)):
                ok = True
            elif isinstance(s, ast.Assign):
                ok = all(isinstance(t, (ast.Name, ast.Attribute)) for t in s.targets)
            elif isinstance(s, ast.AugAssign):
                ok = isinstance(s.target, ast.Name)
            elif isinstance(s, ast.If):
                ok = simple_block(s.body) and simple_block(s.orelse)
            elif isinstance(s, ast.Expr):
                ok = isinstance(s.value, ast.Constant)
            else:
                ok = False
            _simple[key] = ok; _keep.append(s)
        if not _simple[key]:
            return False
    return True

CONST = (bool, int, float, str, bytes, type(None))

def is_const(v):
    return isinstance(v, CONST)

class Interp(object):
    def __init__(self, ctx, world):
        self.ctx = ctx
        self.world = world
        from . import models
        self.models = models
        self.events = []            # calls of user supplied callables, in order
        self.handling = []
        self.frames = 0
        self.violations = []
        self.frame_mark = None
        self.functions = set()
        self.statics = {}          # objects of classes that the goal replaces, by id
        self.overrides = {}         # functions known by their contract alone in this goal
        self.texts = None           # how the goal knows texts (vc/texts.py)

    # ------------------------------------------------------------ errors
    def exc(self, cls, *args):
        inst = Inst(self.ctx, cls, {'args': tuple(args)})
        return PyExc(inst)

    def raise_(self, cls, *args):
        raise self.exc(cls, *args)

    # ------------------------------------------------------------ state
    def record(self, target, slot, data):
        rs = self.ctx.recorders
        if rs:
            r = rs[-1]
            if target.serial <= r.mark:
                r.events.append((slot, target, data))

    def set_local(self, frame, name, value, record=True):
        if self.ctx.spec and frame.serial <= self.ctx.specmark:
            self.ctx.capture.append((frame.locals, name, 'local', frame))
        had = name in frame.locals
        old = frame.locals.get(name)
        frame.locals[name] = value
        def undo():
            if had:
                frame.locals[name] = old
            else:
                frame.locals.pop(name, None)
        self.ctx.log(undo)
        if record:
            self.record(frame, ('local', id(frame), name), value)

    def del_local(self, frame, name):
        self.ctx.nospec(frame)
        old = frame.locals.pop(name)
        self.ctx.log(lambda: frame.locals.__setitem__(name, old))

    def inst_set(self, obj, name, value, record=True):
        if self.ctx.spec and obj.serial <= self.ctx.specmark:
            self.ctx.capture.append((obj.attrs, name, 'attr', obj))
        had = name in obj.attrs
        old = obj.attrs.get(name)
        obj.attrs[name] = value
        def undo():
            if had:
                obj.attrs[name] = old
            else:
                obj.attrs.pop(name, None)
        self.ctx.log(undo)
        if record:
            self.touch(obj, ('attr', name))
            self.record(obj, ('attr', id(obj), name), value)

    def touch(self, obj, what):
        """frame condition: notes writes to objects that existed before the call"""
        if self.ctx.spec:
            return
        fm = self.frame_mark
        if fm is not None and obj.serial <= fm and not self.ctx.recorders:
            self.violations.append((obj, what))

    def list_append(self, lo, value):
        self.ctx.nospec(lo)
        if lo.kind is not list:
            raise Unsupported('append to %s' % lo.kind)
        self.touch(lo, 'append')
        old = lo.segs
        if old and isinstance(old[-1], ItemsSeg):
            lo.segs = old[:-1] + [ItemsSeg(old[-1].items + [value])]
        else:
            lo.segs = old + [ItemsSeg([value])]
        self.ctx.log(lambda: setattr(lo, 'segs', old))
        self.record(lo, ('append', id(lo)), value)

    def list_assign(self, lo, segs):
        self.ctx.nospec(lo)
        self.touch(lo, 'assign')
        old = lo.segs
        lo.segs = segs
        self.ctx.log(lambda: setattr(lo, 'segs', old))
        self.record(lo, ('assign', id(lo)), None)

    def dict_log(self, d, entry):
        self.ctx.nospec(d)
        self.touch(d, entry[0])
        d.log.append(entry)
        self.ctx.log(lambda: d.log.pop())
        self.record(d, ('dict', id(d)), entry)

    def set_log(self, s, entry):
        self.ctx.nospec(s)
        self.touch(s, entry[0])
        s.log.append(entry)
        self.ctx.log(lambda: s.log.pop())
        self.record(s, ('set', id(s)), entry)

    # ------------------------------------------------------------ building values
    def new_list(self, items, kind=list):
        return LObj(self.ctx, kind, [ItemsSeg(list(items))] if items else [])

    def new_dict(self, pairs=(), kind=dict):
        d = DObj(self.ctx, kind)
        d.log = [('set', k, v) for k, v in pairs]
        return d

    def val(self, v):
        """the Val term of an engine value"""
        if isinstance(v, Sym):
            return v.t
        if v is None:
            return VNone
        if isinstance(v, bool):
            return VBool(z3.BoolVal(v))
        if isinstance(v, int) and type(v) is int:
            return VInt(z3.IntVal(v))
        if isinstance(v, float):
            return VFlt(fltlit(v))
        if isinstance(v, str):
            return VStr(strlit(v))
        if isinstance(v, SInt):
            return VInt(v.t)
        if isinstance(v, SBool):
            return VBool(v.t)
        if isinstance(v, SStr):
            return VStr(self.str_term(v))
        return VRef(self.world.ref_of(self, v))

    def str_term(self, s):
        if s.t is None:
            t = None
            for p in s.pieces:
                if p[0] == 'l':
                    x = strlit(p[1])
                elif p[0] == 'o':
                    x = app('FMT_o_' + p[1], [self.val(p[2])], I)
                else:
                    x = app('FMT_' + p[0], [p[1]], I)
                t = x if t is None else CAT(t, x)
            s.t = t if t is not None else strlit('')
        return s.t

    def norm(self, v):
        """Sym of a known constructor -> its engine form"""
        if isinstance(v, Sym):
            t = z3.simplify(v.t)
            if z3.is_app(t) and t.num_args() <= 1:
                n = t.decl().name()
                if n == 'VNone':
                    return None
                if n == 'VBool':
                    b = t.arg(0)
                    return True if z3.is_true(b) else False if z3.is_false(b) else SBool(b)
                if n == 'VInt':
                    i = t.arg(0)
                    return i.as_long() if z3.is_int_value(i) else SInt(i)
                if n == 'VStr':
                    s = lit_of(t.arg(0)) if z3.is_int_value(t.arg(0)) else None
                    return s if s is not None else SStr(t.arg(0))
        return v

    def force(self, v):
        while isinstance(v, Lazy):
            v = v.force()
        return v

    # ------------------------------------------------------------ truth
    def truth(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return v
        if is_const(v):
            return bool(v)
        f = self.truth_formula(v)
        if isinstance(f, bool):
            return f
        return self.ctx.branch(f)

    def truth_formula(self, v):
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            if v.pieces and any(p[0] == 'l' and p[1] for p in v.pieces):
                return True
            if self.texts is not None and v.pieces:
                return self.texts.filled(v)
            return self.str_term(v) != strlit('')
        if isinstance(v, Sym):
            t = v.t
            return self.world.truth(self, t)
        if isinstance(v, LObj):
            n = self.length(v)
            return n > 0 if isinstance(n, int) else n.t > 0 if isinstance(n, SInt) else n
        if isinstance(v, DObj):
            return self.models.dict_nonempty(self, v)
        if isinstance(v, SObj):
            return self.models.set_nonempty(self, v)
        if isinstance(v, View):
            return self.truth(v.d)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, dict):
            return bool(v)
        if isinstance(v, Inst):
            for m in ('__bool__', '__len__'):
                if self.class_lookup(v.cls, m) is not None:
                    return self.truth(self.call(self.getattr_(v, m), [], {}))
            return True
        if isinstance(v, (Closure, Bound, UserFn, BuiltinMethod, SymMethod, type,
                          types.FunctionType, types.BuiltinFunctionType)):
            return True
        if isinstance(v, self.world.hosttruth):
            return bool(v)
        if isinstance(v, self.models.MatchSym):
            return True
        raise Unsupported('truth of %r' % (v,))

    # ------------------------------------------------------------ classes
    def class_of(self, v):
        """host class of an engine value, None when unknown"""
        v = self.norm(v)
        if isinstance(v, Sym):
            return None
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SStr):
            return str
        if isinstance(v, (LObj, DObj)):
            return v.kind
        if isinstance(v, SObj):
            return set
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, (Closure, Bound, UserFn, BuiltinMethod, SymMethod)):
            return types.FunctionType
        return type(v)

    def isinstance_(self, v, classes):
        """-> bool or formula"""
        v = self.force(v)
        if isinstance(classes, LObj):
            classes = tuple(self.concrete_items(classes))
        if isinstance(classes, tuple):
            out = []
            for c in classes:
                r = self.isinstance_(v, c)
                if r is True:
                    return True
                if r is not False:
                    out.append(r)
            return z3.Or(out) if out else False
        if isinstance(classes, Sym):
            raise Unsupported('isinstance with a symbolic class')
        if not isinstance(classes, type):
            self.raise_(TypeError, 'isinstance() arg 2 must be a type')
        v = self.norm(v)
        if isinstance(v, Sym):
            return self.world.has_class(v.t, classes)
        if isinstance(v, Inst) and v.cls is UserErr and classes not in (Exception, BaseException, object):
            return app('EXCIS_' + classes.__name__, [v.attrs['id']], B)
        c = self.class_of(v)
        return issubclass(c, classes)

    def class_lookup(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                return (k.__dict__[name], k)
        return None

    # ------------------------------------------------------------ attributes
    def getattr_(self, obj, name):
        obj = self.norm(self.force(obj))
        if isinstance(obj, Inst):
            if name in obj.attrs:
                return self.force(obj.attrs[name])
            if name == '__class__':
                return obj.cls
            if name == '__dict__':
                d = self.new_dict([(a, self.force(x)) for a, x in obj.attrs.items()
                                   if a != '__init_args__'])
                d.owner = obj
                return d
            if obj.origin is not None:
                r = self.world.origin_attr(self, obj, name)
                if r is not None:
                    return r[0]
            found = self.class_lookup(obj.cls, name)
            if found is not None:
                if id(found[0]) in self.statics:
                    return self.statics[id(found[0])]
                return self.bind(found[0], obj, obj.cls)
            hook = self.class_lookup(obj.cls, '__getattr__')
            if hook is not None:
                return self.call(Bound(hook[0], obj), [name], {})
            self.raise_(AttributeError, name)
        if isinstance(obj, SuperObj):
            mro = (obj.self_.cls if isinstance(obj.self_, Inst) else obj.self_).__mro__
            i = mro.index(obj.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    owner = obj.self_.cls if isinstance(obj.self_, Inst) else obj.self_
                    if k in (object, Exception, BaseException) and name == '__init__':
                        return BuiltinMethod(obj.self_, 'object.__init__')
                    return self.bind(k.__dict__[name], obj.self_, owner)
            self.raise_(AttributeError, name)
        if isinstance(obj, type):
            found = self.class_lookup(obj, name)
            if found is not None:
                x = found[0]
                if id(x) in self.statics:
                    return self.statics[id(x)]
                if isinstance(x, classmethod):
                    return Bound(x.__func__, obj)
                if isinstance(x, staticmethod):
                    return x.__func__
                return x
            found = self.class_lookup(type(obj), name)
            if found is not None:
                x = found[0]
                if isinstance(x, types.FunctionType):
                    return Bound(x, obj)
                try:
                    return getattr(obj, name)
                except AttributeError:
                    pass
            self.raise_(AttributeError, name)
        if isinstance(obj, Sym):
            return self.world.sym_attr(self, obj, name)
        if isinstance(obj, (LObj, DObj, SObj, View)) or isinstance(obj, (SInt, SBool, SStr)) \
                or (is_const(obj) and not isinstance(obj, type)):
            c = self.class_of(obj)
            if isinstance(obj, View) or hasattr(c, name):
                return BuiltinMethod(obj, name)
            self.raise_(AttributeError, name)
        if isinstance(obj, (dict, tuple, list, set)):
            if hasattr(obj, name):
                return BuiltinMethod(obj, name)
            self.raise_(AttributeError, name)
        if isinstance(obj, (Closure, Bound, UserFn)):
            if isinstance(obj, UserFn):
                if name in ('__instantiate__', '__extract__'):
                    self.raise_(AttributeError, name)
            if name in ('__name__',):
                return getattr(obj, 'name', 'f')
            self.raise_(AttributeError, name)
        # host object
        found = self.class_lookup(type(obj), name)
        if found is not None and not isinstance(obj, types.ModuleType):
            x = found[0]
            d = getattr(obj, '__dict__', {})
            if name in d:
                return d[name]
            if isinstance(x, types.FunctionType):
                return Bound(x, obj)
            if isinstance(x, property):
                return self.call(x.fget, [obj], {})
            return getattr(obj, name)
        try:
            return getattr(obj, name)
        except AttributeError:
            self.raise_(AttributeError, name)

    def bind(self, x, obj, cls):
        if isinstance(x, property):
            return self.call(x.fget, [obj], {})
        if isinstance(x, classmethod):
            return Bound(x.__func__, cls)
        if isinstance(x, staticmethod):
            return x.__func__
        if isinstance(x, types.FunctionType):
            return Bound(x, obj)
        if isinstance(x, (types.WrapperDescriptorType, types.MethodDescriptorType)):
            return Bound(x, obj)
        return x

    def setattr_(self, obj, name, value):
        obj = self.norm(self.force(obj))
        if isinstance(obj, Inst):
            self.inst_set(obj, name, value)
            return
        if isinstance(obj, Sym):
            self.world.sym_setattr(self, obj, name, value)
            return
        raise Unsupported('attribute %s of %r set' % (name, obj))

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kwargs):
        self.ctx.step()
        fn = self.norm(self.force(fn))
        if isinstance(fn, Bound):
            if isinstance(fn.func, Closure) or interpretable(fn.func):
                return self.call(fn.func, [fn.self_] + list(args), kwargs)
            m = self.models.host_model(self, fn.func)
            if m is not None:
                return m(self, [fn.self_] + list(args), kwargs)
            return self.models.call_host(self, fn.func, [fn.self_] + list(args), kwargs)
        if isinstance(fn, BuiltinMethod):
            return self.models.call_method(self, fn.recv, fn.name, list(args), kwargs)
        if isinstance(fn, SymMethod):
            return self.world.sym_method(self, fn.recv, fn.name, list(args), kwargs)
        if isinstance(fn, UserFn):
            return self.world.user_call(self, fn, list(args), kwargs)
        if isinstance(fn, Closure):
            return self.run(fn.node, fn.env, fn.env.globs, args, kwargs, fn.node.args, fn)
        if isinstance(fn, type):
            m = self.models.CONSTRUCTORS.get(fn)
            if m is not None:
                return m(self, list(args), kwargs)
            return self.construct(fn, args, kwargs)
        m = self.models.host_model(self, fn)
        if m is not None:
            return m(self, list(args), kwargs)
        if isinstance(fn, types.FunctionType) and interpretable(fn):
            node = def_of(fn)
            if fn.__code__.co_filename.startswith(REPO):
                self.functions.add((fn.__code__.co_filename[len(REPO):].lstrip('/'), fn.__qualname__))
            return self.run(node, None, fn.__globals__, args, kwargs, node.args, fn)
        if isinstance(fn, Inst):
            c = self.class_lookup(fn.cls, '__call__')
            if c:
                return self.call(Bound(c[0], fn), args, kwargs)
            self.raise_(TypeError, 'not callable')
        if isinstance(fn, Sym):
            raise Unsupported('call of a symbolic value %r' % (fn,))
        if is_const(fn) or isinstance(fn, (LObj, DObj, SObj)):
            self.raise_(TypeError, 'not callable')
        return self.models.call_host(self, fn, list(args), kwargs)

    def construct(self, cls, args, kwargs):
        new = self.class_lookup(cls, '__new__')
        if new is not None and new[1] not in (object, dict) and not issubclass(cls, BaseException):
            raise Unsupported('__new__ of %s' % cls)
        if not issubclass(cls, BaseException) and not any(
                cls.__module__.startswith(p) for p in ('scheme', 'contracts', 'vc')):
            raise Unsupported('construction of %s' % cls)
        inst = Inst(self.ctx, cls)
        if issubclass(cls, dict):
            inst.attrs['__entries__'] = self.new_dict([])
        init = self.class_lookup(cls, '__init__')
        if init is not None and isinstance(init[0], types.FunctionType):
            self.call(Bound(init[0], inst), args, kwargs)
        else:
            inst.attrs['args'] = tuple(args)
        return inst

    def run(self, node, parent, globs, args, kwargs, a, func):
        self.frames += 1
        if self.frames > 60:
            self.frames -= 1
            raise Unsupported('recursion')
        frame = Frame(self.ctx, globs, parent, func)
        L = frame.locals
        params = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        fname = getattr(node, 'name', '<lambda>')
        try:
            n = len(params)
            for name, v in zip(params, args):
                L[name] = v
            if len(args) > n:
                if a.vararg is None:
                    self.raise_(TypeError, '%s() takes %d arguments' % (fname, n))
                L[a.vararg.arg] = tuple(args[n:])
            elif a.vararg is not None:
                L[a.vararg.arg] = ()
            if '*' in kwargs:
                # arguments whose number is unknown
                rest = kwargs.pop('*')
                if a.vararg is None or len(args) < n:
                    raise Unsupported('an unknown number of arguments')
                L[a.vararg.arg] = LObj(self.ctx, tuple, [ItemsSeg(list(args[n:])), rest]) if args[n:] else \
                    LObj(self.ctx, tuple, [rest])
            posonly = set(p.arg for p in a.posonlyargs)
            extra = []
            kwonly = [p.arg for p in a.kwonlyargs]
            for k, v in kwargs.items():
                if k == '**':
                    continue
                if (k in params and k not in posonly) or k in kwonly:
                    if k in L:
                        self.raise_(TypeError, 'multiple values for %s' % k)
                    L[k] = v
                elif a.kwarg is not None:
                    extra.append((k, v))
                else:
                    self.raise_(TypeError, '%s() got an unexpected keyword argument %r' % (fname, k))
            symkw = kwargs.get('**')
            if symkw is not None and a.kwarg is None:
                raise Unsupported('symbolic keyword arguments')
            defaults = self.defaults_of(func, node, parent)
            for i, name in enumerate(params):
                if name not in L:
                    j = i - (n - len(defaults[0]))
                    if j < 0:
                        self.raise_(TypeError, '%s() missing argument %r' % (fname, name))
                    L[name] = defaults[0][j]
            for name in kwonly:
                if name not in L:
                    if name not in defaults[1]:
                        self.raise_(TypeError, '%s() missing argument %r' % (fname, name))
                    L[name] = defaults[1][name]
            if a.kwarg is not None:
                if symkw is not None:
                    d = DObj(self.ctx, dict, symkw.base)
                    d.log = list(symkw.log) + [('set', k, v) for k, v in extra]
                    L[a.kwarg.arg] = d
                else:
                    L[a.kwarg.arg] = self.new_dict(extra)
            if isinstance(func, types.FunctionType) and func.__closure__:
                frame.cells = dict(zip(func.__code__.co_freevars,
                                       [c.cell_contents for c in func.__closure__]))
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, frame)
            try:
                self.block(node.body, frame)
            except ReturnValue as r:
                return r.value
            return None
        finally:
            self.frames -= 1

    def defaults_of(self, func, node, parent):
        if isinstance(func, types.FunctionType):
            return (list(func.__defaults__ or ()), dict(func.__kwdefaults__ or {}))
        return func.defaults if isinstance(func, Closure) else ([], {})

    # ------------------------------------------------------------ statements
    def block(self, stmts, frame):
        for s in stmts:
            self.stmt(s, frame)

    def stmt(self, s, frame):
        self.ctx.step()
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at line %s' % (type(s).__name__, s.lineno))
        return m(s, frame)

    def s_Pass(self, s, frame):
        pass
    def s_Expr(self, s, frame):
        if not isinstance(s.value, ast.Constant):
            self.eval(s.value, frame)
    def s_Return(self, s, frame):
        raise ReturnValue(self.eval(s.value, frame) if s.value is not None else None)
    def s_Break(self, s, frame):
        raise BreakLoop()
    def s_Continue(self, s, frame):
        raise ContinueLoop()
    def s_If(self, s, frame):
        f = self.test(s.test, frame)
        if not isinstance(f, bool) and simple_block(s.body) and simple_block(s.orelse):
            d = self.ctx.decide(f)
            if d is None:
                if self.ctx.attempt_merge(lambda: self.merge_if(f, s, frame)):
                    return
            else:
                f = d
        if self.branch(f):
            self.block(s.body, frame)
        else:
            self.block(s.orelse, frame)

    def merge_if(self, f, s, frame):
        """executes both sides and joins what they assign"""
        ctx = self.ctx
        f = z3.simplify(f)
        _, w1 = ctx.speculate(f, lambda: self.block(s.body, frame), self.events)
        _, w2 = ctx.speculate(z3.Not(f), lambda: self.block(s.orelse, frame), self.events)
        todo = []
        for w in w1 + w2:
            store, name, kind, target = w[:4]
            if any(t[0] is store and t[1] == name for t in todo):
                continue
            vals = []
            for ws in (w1, w2):
                x = [y[4] for y in ws if y[0] is store and y[1] == name]
                vals.append(x[0] if x else store.get(name, UNBOUND))
            todo.append((store, name, kind, target, self.merge_values(f, vals[0], vals[1])))
        for store, name, kind, target, v in todo:
            if kind == 'local':
                self.set_local(target, name, v)
            else:
                self.inst_set(target, name, v)
        return True

    def merge_values(self, f, a, b):
        if a is UNBOUND or b is UNBOUND:
            raise NoMerge()
        if isinstance(a, Lazy) or isinstance(b, Lazy):
            if a is b:
                return a
            raise NoMerge()
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return a
        scalar = lambda v: isinstance(v, (Sym, SInt, SBool, SStr)) or (is_const(v) and not isinstance(v, bytes))
        if not (scalar(a) and scalar(b)):
            raise NoMerge()
        if is_const(a) and is_const(b) and type(a) is type(b) and a == b:
            return a
        bl = lambda v: z3.BoolVal(v) if isinstance(v, bool) else v.t
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.models.wrapb(z3.If(f, bl(a), bl(b)))
        return self.norm(Sym(z3.If(f, self.val(a), self.val(b))))

    def test(self, e, frame):
        """truth of an expression: a bool or a formula"""
        if isinstance(e, ast.BoolOp):
            return self.test_bool(e.op, e.values, frame)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            f = self.test(e.operand, frame)
            return (not f) if isinstance(f, bool) else z3.simplify(z3.Not(f))
        return self.truthf(self.eval(e, frame))

    def truthf(self, v):
        v = self.force(v)
        if is_const(v):
            return bool(v)
        f = self.truth_formula(v)
        if not isinstance(f, bool):
            f = z3.simplify(f)
            if z3.is_true(f):
                return True
            if z3.is_false(f):
                return False
        return f

    def test_bool(self, op, values, frame):
        conj = isinstance(op, ast.And)
        f = self.test(values[0], frame)
        for n, e in enumerate(values[1:]):
            if not isinstance(f, bool):
                d = self.ctx.decide(f)
                if d is not None:
                    f = d
            if isinstance(f, bool):
                if f is not conj:
                    return f
                f = self.test(e, frame)
                continue
            a = f if conj else z3.simplify(z3.Not(f))
            r = self.ctx.attempt_merge(lambda: self.ctx.speculate(a, lambda: self.test(e, frame), self.events))
            if r is not None and not r[0][1]:
                g = r[0][0]
                if isinstance(g, bool):
                    g = z3.BoolVal(g)
                f = z3.simplify(z3.And(f, g) if conj else z3.Or(f, g))
                if z3.is_true(f):
                    f = True
                elif z3.is_false(f):
                    f = False
            else:
                if self.ctx.branch(f) is not conj:
                    return not conj
                f = self.test(e, frame)
        return f
    def s_Assert(self, s, frame):
        if not self.truth(self.eval(s.test, frame)):
            self.raise_(AssertionError)
    def s_Import(self, s, frame):
        for a in s.names:
            m = __import__(a.name)
            self.set_local(frame, a.asname or a.name.split('.')[0], m)
    def s_ImportFrom(self, s, frame):
        m = __import__(s.module, None, None, [a.name for a in s.names])
        for a in s.names:
            self.set_local(frame, a.asname or a.name, getattr(m, a.name))
    def s_FunctionDef(self, s, frame):
        c = Closure(s, frame, s.name)
        c.defaults = ([self.eval(d, frame) for d in s.args.defaults],
                      {p.arg: self.eval(d, frame) for p, d in
                       zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        self.set_local(frame, s.name, c)
    def s_Global(self, s, frame):
        raise Unsupported('global')
    def s_Nonlocal(self, s, frame):
        raise Unsupported('nonlocal')

    def s_Assign(self, s, frame):
        v = self.eval(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def s_AnnAssign(self, s, frame):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, frame), frame)

    def s_AugAssign(self, s, frame):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, frame)
            self.set_local(frame, t.id, self.inplace(s.op, old, self.eval(s.value, frame)))
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value, frame)
            old = self.getattr_(obj, t.attr)
            self.setattr_(obj, t.attr, self.inplace(s.op, old, self.eval(s.value, frame)))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value, frame)
            i = self.eval(t.slice, frame)
            old = self.getitem(obj, i)
            self.setitem(obj, i, self.inplace(s.op, old, self.eval(s.value, frame)))
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, a, b):
        a = self.force(a)
        if isinstance(op, ast.Add) and isinstance(a, LObj) and a.kind is list:
            self.models.call_method(self, a, 'extend', [b], {})
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            self.set_local(frame, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, frame), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, frame), self.eval(t.slice, frame), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            items = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, frame)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        v = self.norm(self.force(v))
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_(ValueError, 'unpack')
            return list(v)
        if isinstance(v, Sym):
            if not self.branch(self.isinstance_(v, (list, tuple))):
                if self.branch(self.isinstance_(v, (int, bool, float, type(None)))):
                    self.raise_(TypeError, 'unpack')
                raise Unsupported('unpacking a value of unknown class')
            if not self.ctx.branch(LEN(rv(v.t)) == n):
                self.raise_(ValueError, 'unpack')
            return [Sym(AT(rv(v.t), z3.IntVal(i))) for i in range(n)]
        if isinstance(v, (LObj,)):
            ln = self.length(v)
            if isinstance(ln, int):
                if ln != n:
                    self.raise_(ValueError, 'unpack')
                return [self.getitem(v, i) for i in range(n)]
            if not self.ctx.branch(ln.t == n):
                self.raise_(ValueError, 'unpack')
            return [self.getitem(v, i) for i in range(n)]
        raise Unsupported('unpacking %r' % (v,))

    def branch(self, f):
        return f if isinstance(f, bool) else self.ctx.branch(f)

    def s_Delete(self, s, frame):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.del_local(frame, t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, frame), self.eval(t.slice, frame))
            else:
                raise Unsupported('del')

    def s_Raise(self, s, frame):
        if s.exc is None:
            if not self.handling:
                raise Unsupported('raise outside of a handler')
            raise PyExc(self.handling[-1])
        v = self.eval(s.exc, frame)
        if isinstance(v, type):
            v = self.call(v, [], {})
        if s.cause is not None:
            self.eval(s.cause, frame)
        if isinstance(v, Inst):
            raise PyExc(v)
        raise Unsupported('raise of %r' % (v,))

    def s_Try(self, s, frame):
        if s.finalbody:
            try:
                self.try_(s, frame)
            except (Unsupported, Infeasible, Budget):
                raise
            except BaseException:
                self.block(s.finalbody, frame)
                raise
            self.block(s.finalbody, frame)
        else:
            self.try_(s, frame)

    def try_(self, s, frame):
        try:
            self.block(s.body, frame)
        except PyExc as e:
            inst = e.inst
            for h in s.handlers:
                if h.type is None:
                    match = True
                else:
                    cls = self.eval(h.type, frame)
                    match = self.branch(self.isinstance_(inst, cls))
                if match:
                    if h.name:
                        self.set_local(frame, h.name, inst)
                    self.handling.append(inst)
                    try:
                        self.block(h.body, frame)
                    finally:
                        self.handling.pop()
                    return
            raise
        else:
            self.block(s.orelse, frame)

    def s_While(self, s, frame):
        rounds = 0
        try:
            while self.truth(self.eval(s.test, frame)):
                rounds += 1
                if rounds > 64:
                    raise Unsupported('while loop')
                try:
                    self.block(s.body, frame)
                except ContinueLoop:
                    pass
        except BreakLoop:
            return
        self.block(s.orelse, frame)

    def s_With(self, s, frame):
        files = []
        for item in s.items:
            f = self.norm(self.force(self.eval(item.context_expr, frame)))
            if not isinstance(f, FileObj):
                raise Unsupported('with')
            if item.optional_vars is not None:
                self.assign(item.optional_vars, f, frame)
            files.append(f)
        self.block(s.body, frame)

    def s_For(self, s, frame):
        it = self.iterate(self.eval(s.iter, frame))
        def body(elem):
            self.assign(s.target, elem, frame)
            try:
                self.block(s.body, frame)
            except ContinueLoop:
                pass
        loaded = set(n.id for b in s.body for n in ast.walk(b)
                     if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load))
        try:
            self.loop(it, body, frame, loaded)
        except BreakLoop:
            return
        self.block(s.orelse, frame)

    def loop(self, it, body, frame, loaded=()):
        for seg in it.segs:
            if isinstance(seg, ItemsSeg):
                for x in list(seg.items):
                    body(x)
            else:
                from .loops import trace_loop
                trace_loop(self, seg, body, frame, loaded)

    # ------------------------------------------------------------ expressions
    def eval(self, e, frame):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (type(e).__name__, e.lineno))
        return m(e, frame)

    def e_Constant(self, e, frame):
        return e.value

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, Lazy):
                    v = self.force(v)
                    self.set_local(f, name, v, record=False)
                if v is UNBOUND:
                    self.raise_(UnboundLocalError, name)
                return v
            if f.cells and name in f.cells:
                return f.cells[name]
            if f.parent is None:
                break
            f = f.parent
        g = f.globs
        if name in g:
            return g[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        self.raise_(NameError, name)

    def e_Name(self, e, frame):
        return self.lookup(e.id, frame)

    def e_Attribute(self, e, frame):
        return self.getattr_(self.eval(e.value, frame), e.attr)

    def e_Subscript(self, e, frame):
        return self.getitem(self.eval(e.value, frame), self.eval(e.slice, frame))

    def e_Slice(self, e, frame):
        g = lambda x: self.eval(x, frame) if x is not None else None
        return Slice(g(e.lower), g(e.upper), g(e.step))

    def e_Index(self, e, frame):
        return self.eval(e.value, frame)

    def e_Tuple(self, e, frame):
        return tuple(self.elements(e.elts, frame))

    def e_List(self, e, frame):
        return self.new_list(self.elements(e.elts, frame))

    def e_Set(self, e, frame):
        s = SObj(self.ctx)
        for x in self.elements(e.elts, frame):
            self.models.need_hashable(self, x)
            s.log.append(('add', x))
        return s

    def elements(self, elts, frame):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.concrete_items(self.eval(x.value, frame)))
            else:
                out.append(self.eval(x, frame))
        return out

    def e_Dict(self, e, frame):
        d = DObj(self.ctx)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.call_method(self, d, 'update', [self.eval(v, frame)], {})
            else:
                key = self.eval(k, frame)
                self.models.need_hashable(self, key)
                d.log.append(('set', key, self.eval(v, frame)))
        return d

    def e_IfExp(self, e, frame):
        f = self.test(e.test, frame)
        if not isinstance(f, bool):
            d = self.ctx.decide(f)
            if d is None:
                def both():
                    a, w1 = self.ctx.speculate(f, lambda: self.eval(e.body, frame), self.events)
                    b, w2 = self.ctx.speculate(z3.Not(f), lambda: self.eval(e.orelse, frame), self.events)
                    if w1 or w2:
                        raise NoMerge()
                    return self.merge_values(f, a, b)
                r = self.ctx.attempt_merge(both)
                if r is not None:
                    return r[0]
            else:
                f = d
        return self.eval(e.body if self.branch(f) else e.orelse, frame)

    def e_BoolOp(self, e, frame):
        v = None
        conj = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.eval(x, frame)
            if i == len(e.values) - 1:
                return v
            t = self.truthf(v)
            if not isinstance(t, bool):
                d = self.ctx.decide(t)
                if d is None:
                    def rest():
                        tail = e.values[i + 1:]
                        e2 = tail[0] if len(tail) == 1 else ast.BoolOp(e.op, tail)
                        g = t if conj else z3.Not(t)
                        b, w = self.ctx.speculate(g, lambda: self.eval(e2, frame), self.events)
                        if w:
                            raise NoMerge()
                        return self.merge_values(g, b, v)
                    r = self.ctx.attempt_merge(rest)
                    if r is not None:
                        return r[0]
                    t = self.ctx.branch(t)
                else:
                    t = d
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, frame):
        if isinstance(e.op, ast.Not):
            f = self.test(e.operand, frame)
            return (not f) if isinstance(f, bool) else self.models.wrapb(z3.Not(f))
        v = self.force(self.eval(e.operand, frame))
        if isinstance(e.op, ast.Not):
            f = self.truthf(v)
            return (not f) if isinstance(f, bool) else self.models.wrapb(z3.Not(f))
        if isinstance(e.op, ast.USub):
            if is_const(v):
                return -v
            v = self.norm(v)
            if isinstance(v, SInt):
                return SInt(-v.t)
        raise Unsupported('unary operator')

    def e_BinOp(self, e, frame):
        return self.binop(e.op, self.eval(e.left, frame), self.eval(e.right, frame))

    def e_Compare(self, e, frame):
        left = self.eval(e.left, frame)
        result = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, frame)
            result = self.compare(op, left, right)
            if i < len(e.ops) - 1 and not self.truth(result):
                return result
            left = right
        return result

    def e_Lambda(self, e, frame):
        c = Closure(e, frame)
        c.defaults = ([self.eval(d, frame) for d in e.args.defaults], {})
        return c

    def e_JoinedStr(self, e, frame):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(('l', v.value))
            else:
                if v.format_spec is not None:
                    raise Unsupported('format spec')
                x = self.eval(v.value, frame)
                parts.extend(self.models.fmt_piece(self, 'r' if v.conversion == 114 else 's', x))
        return self.models.mkstr(self, parts)

    def e_FormattedValue(self, e, frame):
        raise Unsupported('formatted value')

    def e_Call(self, e, frame):
        fn = self.eval(e.func, frame)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.eval(a.value, frame)))
            else:
                args.append(self.eval(a, frame))
        for k in e.keywords:
            v = self.eval(k.value, frame)
            if k.arg is not None:
                if k.arg in kwargs:
                    self.raise_(TypeError, 'multiple values')
                kwargs[k.arg] = v
            else:
                self.models.splat(self, kwargs, v)
        if fn is super:
            if not args:
                raise Unsupported('super() without arguments')
            return SuperObj(args[0], args[1])
        if fn is locals:
            raise Unsupported('locals()')
        return self.call(fn, args, kwargs)

    # comprehensions
    def comp(self, gens, frame, emit):
        inner = Frame(self.ctx, frame.globs, frame)
        def level(i):
            if i == len(gens):
                emit(inner)
                return
            g = gens[i]
            it = self.iterate(self.eval(g.iter, frame if i == 0 else inner))
            def body(elem):
                self.assign(g.target, elem, inner)
                for c in g.ifs:
                    if not self.truth(self.eval(c, inner)):
                        return
                level(i + 1)
            self.loop(it, body, inner)
        level(0)

    def e_ListComp(self, e, frame):
        out = self.new_list([])
        self.comp(e.generators, frame, lambda f: self.list_append(out, self.eval(e.elt, f)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, frame):
        out = SObj(self.ctx)
        def emit(f):
            x = self.eval(e.elt, f)
            self.models.need_hashable(self, x)
            self.set_log(out, ('add', x))
        self.comp(e.generators, frame, emit)
        return out

    def e_DictComp(self, e, frame):
        out = DObj(self.ctx)
        def emit(f):
            k = self.eval(e.key, f)
            self.models.need_hashable(self, k)
            self.dict_log(out, ('set', k, self.eval(e.value, f)))
        self.comp(e.generators, frame, emit)
        return out

    # ------------------------------------------------------------ containers
    def concrete_items(self, v):
        v = self.norm(self.force(v))
        it = self.iterate(v)
        out = []
        for s in it.segs:
            if not isinstance(s, ItemsSeg):
                raise Unsupported('a symbolic sequence where a concrete one is needed')
            out.extend(s.items)
        return out

    def iterate(self, v):
        v = self.norm(self.force(v))
        if isinstance(v, Iter):
            return v
        if isinstance(v, (tuple, list)):
            return Iter([ItemsSeg(list(v))])
        if isinstance(v, LObj):
            return Iter(list(v.segs))
        if isinstance(v, dict):
            return Iter([ItemsSeg(list(v))])
        if isinstance(v, str):
            return Iter([ItemsSeg(list(v))])
        if isinstance(v, DObj):
            return self.models.dict_iter(self, v, 'keys')
        if isinstance(v, View):
            return self.models.dict_iter(self, v.d, v.what)
        if isinstance(v, SObj):
            return self.models.set_iter(self, v)
        if isinstance(v, Sym):
            return self.world.sym_iter(self, v)
        if is_const(v) or isinstance(v, (SInt, SBool, Inst, UserFn)):
            if isinstance(v, Inst) and 'elements' in v.cls.__dict__:
                return self.iterate(v.attrs[v.cls.elements])
            if isinstance(v, Inst) and self.class_lookup(v.cls, '__iter__'):
                raise Unsupported('iteration over an instance')
            self.raise_(TypeError, 'not iterable')
        raise Unsupported('iteration over %r' % (v,))

    def length(self, v):
        """int or SInt"""
        v = self.norm(self.force(v))
        if isinstance(v, (str, bytes, tuple, dict, list)):
            return len(v)
        if isinstance(v, LObj):
            n, terms = 0, []
            for s in v.segs:
                if isinstance(s, ItemsSeg):
                    n += len(s.items)
                elif isinstance(s, SymSeg):
                    terms.append(s.n)
                elif s.always:
                    terms.append(s.trace.ndone)
                else:
                    terms.append(self.models.count_term(self, s))
            if not terms:
                return n
            return SInt(z3.simplify(z3.Sum([z3.IntVal(n)] + terms)))
        if isinstance(v, SStr):
            t = SLEN(self.str_term(v))
            self.ctx.fact(t >= 0)
            return SInt(t)
        if isinstance(v, DObj):
            return self.models.dict_len(self, v)
        if isinstance(v, SObj):
            return self.models.set_len(self, v)
        if isinstance(v, View):
            return self.length(v.d)
        if isinstance(v, Sym):
            return self.world.sym_len(self, v)
        self.raise_(TypeError, 'no len()')

    def getitem(self, o, i):
        return self.models.getitem(self, self.norm(self.force(o)), i)

    def setitem(self, o, i, v):
        return self.models.setitem(self, self.norm(self.force(o)), i, v)

    def delitem(self, o, i):
        return self.models.delitem(self, self.norm(self.force(o)), i)

    def binop(self, op, a, b):
        return self.models.binop(self, op, self.norm(self.force(a)), self.norm(self.force(b)))

    def compare(self, op, a, b):
        return self.models.compare(self, op, self.norm(self.force(a)), self.norm(self.force(b)))
