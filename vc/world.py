"""What the verifier assumes about values it knows nothing about: classes, attributes,
child fields (by contract) and user supplied callables (uninterpreted)."""
import datetime
import decimal
import re
import types
import sys
import z3
from collections import OrderedDict
from .smt import *
from .core import *
from .interp import (Iter, View, symseg, UserErr, BuiltinMethod, is_const)

class Opaque(Obj):
    """The result of a call known only by what was called with what."""
    def __init__(self, ctx, origin):
        Obj.__init__(self, ctx)
        self.origin = origin
    def __repr__(self):
        return 'Opaque(%r)' % (self.origin,)

class World(object):
    def __init__(self, scheme):
        self.scheme = scheme
        F = scheme.field.Field
        self.Field = F
        self.Undefined = scheme.field.Undefined
        self.exceptions = scheme.exceptions
        roots = [list, tuple, dict, set, frozenset, bytes, datetime.date, datetime.time,
                 datetime.timedelta, datetime.tzinfo, decimal.Decimal, BaseException, F, self.Undefined,
                 sys.modules['scheme.surrogate'].surrogate, scheme.element.Element, scheme.field.FieldError,
                 types.FunctionType, types.ModuleType, re.Pattern, type]
        self.lo, self.hi, self.ids = {}, {}, {}
        self.exact = {}
        n = [0]
        seen = set()
        extra = {dict: [OrderedDict], datetime.date: [datetime.datetime],
                 BaseException: [Exception]}
        def subclasses(c):
            out = [s for s in extra.get(c, [])]
            if c.__module__.startswith('scheme') or c is Exception:
                for s in c.__subclasses__() if c is not type else []:
                    if s.__module__.startswith('scheme') and s not in out:
                        out.append(s)
            return out
        def visit(c):
            if c in seen:
                return
            seen.add(c)
            n[0] += 1
            self.lo[c] = self.exact[c] = n[0]
            self.ids[n[0]] = c
            for s in subclasses(c):
                visit(s)
            n[0] += 1                      # an unknown subclass
            self.hi[c] = n[0]
        for r in roots:
            visit(r)
        n[0] += 1
        self.other = n[0]
        self.exact[object] = self.other
        self.hostids = {}
        self.hosts = {}
        self.hosttruth = (F, re.Pattern, types.ModuleType, scheme.field.FieldError,
                          datetime.tzinfo, datetime.date, datetime.time)
        self.assumptions = set()
        self.kept = {}

    def note(self, text):
        self.assumptions.add(text)

    # -- classes
    def in_class(self, u, cls):
        if cls in self.lo:
            lo, hi = self.lo[cls], self.hi[cls]
            c = CLS(u)
            return z3.And(c >= lo, c <= hi)
        return None

    def has_class(self, t, cls):
        key = (t.get_id(), cls)
        e = self.kept.get(key)
        if e is None:
            e = self.kept[key] = (t, self.has_class_(t, cls))
        return e[1]

    def has_class_(self, t, cls):
        if cls is object:
            return True
        if cls is int:
            return z3.Or(is_int(t), is_bool(t))
        if cls is bool:
            return is_bool(t)
        if cls is float:
            return is_flt(t)
        if cls is str:
            return is_str(t)
        if cls is type(None):
            return is_none(t)
        f = self.in_class(rv(t), cls)
        if f is None:
            if cls is types.BuiltinFunctionType:
                return False
            subs = [c for c in self.lo if issubclass(c, cls)]
            if subs:
                return z3.And(is_ref(t), z3.Or([self.in_class(rv(t), c) for c in subs]))
            raise Unsupported('isinstance of an arbitrary value and %s' % cls)
        return z3.And(is_ref(t), f)

    def truth(self, ip, t):
        key = (t.get_id(), 'truth')
        e = self.kept.get(key)
        if e is None:
            e = self.kept[key] = (t, self.truth_(ip, t))
        return e[1]

    def truth_(self, ip, t):
        u = rv(t)
        cont = z3.Or([self.in_class(u, c) for c in (list, tuple, dict, set, frozenset, bytes)])
        always = z3.Or([self.in_class(u, c) for c in (self.Field, self.Undefined,
            types.FunctionType, re.Pattern, type, datetime.date, datetime.time, BaseException)])
        return z3.Or(z3.And(is_bool(t), bv(t)), z3.And(is_int(t), iv(t) != 0),
                     z3.And(is_flt(t), app('FNONZERO', [fv(t)], B)),
                     z3.And(is_str(t), sv(t) != strlit('')),
                     z3.And(is_ref(t), z3.If(cont, LEN(u) > 0,
                            z3.Or(always, app('TRUTHY', [u], B)))))

    def ref_of(self, ip, v):
        ctx = ip.ctx
        if isinstance(v, Obj):
            if v.ref is None:
                c = ip.class_of(v) if not isinstance(v, Opaque) else None
                if ctx.recorders and v.serial > ctx.recorders[-1].mark or True:
                    v.ref = ctx.fresh('ref', I)
                ctx.log(lambda: setattr(v, 'ref', None))
                ex = self.exact.get(c)
                if ex is not None:
                    ctx.fact(CLS(v.ref) == ex)
                ctx.fact(v.ref > 1000000)
            return v.ref
        if isinstance(v, UserFn):
            key = ('userfn', v.name)
            cls = types.FunctionType
        else:
            key = id(v)
            cls = type(v)
        if key not in self.hostids:
            self.hostids[key] = -len(self.hostids) - 10
            self.hosts[self.hostids[key]] = v
        r = z3.IntVal(self.hostids[key])
        for k in cls.__mro__:
            if k in self.exact and k is not object:
                ctx.fact(CLS(r) == self.exact[k])
                break
        return r

    # -- iteration and length of arbitrary values
    def sym_iter(self, ip, v):
        t, u = v.t, rv(v.t)
        br = lambda f: ip.branch(f)
        if br(self.has_class(t, (list))) or br(self.has_class(t, tuple)):
            ip.ctx.fact(LEN(u) >= 0)
            return Iter([symseg(u)])
        if br(self.has_class(t, dict)):
            return ip.models.dict_iter(ip, v, 'keys')
        if br(z3.Or(is_none(t), is_bool(t), is_int(t), is_flt(t))):
            ip.raise_(TypeError, 'not iterable')
        if br(is_str(t)):
            raise Unsupported('iteration over a symbolic string')
        if br(z3.Or([self.has_class(t, c) for c in (set, frozenset, bytes)])):
            raise Unsupported('iteration over a symbolic set')
        ip.raise_(TypeError, 'not iterable')

    def sym_len(self, ip, v):
        t, u = v.t, rv(v.t)
        sized = z3.Or([self.has_class(t, c) for c in (list, tuple, dict, set, frozenset, bytes)])
        if ip.branch(sized):
            ip.ctx.fact(LEN(u) >= 0)
            return SInt(LEN(u))
        if ip.branch(is_str(t)):
            ip.ctx.fact(SLEN(sv(t)) >= 0)
            return SInt(SLEN(sv(t)))
        self.note('only the modelled container classes have a length')
        ip.raise_(TypeError, 'no len()')

    # -- attributes
    METHODS = {
        dict: ('items', 'keys', 'values', 'get', 'copy', 'pop', 'update', 'setdefault', 'clear', 'popitem'),
        list: ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'count', 'index', 'copy', 'clear'),
        tuple: ('count', 'index'),
        str: ('strip', 'lower', 'upper', 'split', 'count', 'replace', 'startswith', 'endswith', 'join',
              'encode', 'rstrip', 'lstrip', 'capitalize', 'isalnum', 'format', 'rpartition', 'partition', 'find'),
        datetime.date: ('strftime', 'isoformat', 'timetuple', 'weekday', 'replace'),
        datetime.datetime: ('date', 'time', 'astimezone', 'utcoffset', 'timestamp', 'timetz'),
        datetime.time: ('strftime', 'isoformat', 'utcoffset', 'replace'),
        decimal.Decimal: ('is_nan', 'is_finite', 'is_infinite', 'is_zero', 'is_signed', 'compare'),
        bytes: ('decode', 'strip'),
        re.Pattern: ('match', 'search', 'fullmatch', 'sub'),
    }
    DATA = {datetime.date: ('year', 'month', 'day'),
            datetime.datetime: ('hour', 'minute', 'second', 'microsecond', 'tzinfo'),
            datetime.time: ('hour', 'minute', 'second', 'microsecond', 'tzinfo')}
    FIELD_METHODS = ('process', 'extract', 'instantiate', 'interpolate', 'filter', 'transform',
                     'describe', 'clone', 'serialize', 'unserialize', 'screen', '_serialize_value')
    BOOL_ATTRS = ('structural',)

    def field_term(self, ip, t):
        """t is a field or placeholder for sure?"""
        return ip.ctx.memo.get(('fieldish', t.get_id()))

    def sym_attr(self, ip, v, name):
        t, u = v.t, rv(v.t)
        if name == '__class__':
            raise Unsupported('class of an arbitrary value')
        cands = [c for c, ms in self.METHODS.items() if name in ms]
        data = [c for c, ms in self.DATA.items() if name in ms]
        if ip.ctx.formats and name in ('serialize', 'unserialize'):
            return SymMethod(v, name)
        fieldattr = name in self.FIELD_METHODS or name in self.FIELD_ATTRS
        key = ('symattr', t.get_id(), name)
        if fieldattr and ip.branch(self.has_class(t, self.Field)):
            if name in self.FIELD_METHODS:
                return SymMethod(v, name)
            return self.field_attr(ip, u, name)
        if name in ('field', 'define', 'register', 'callbacks') and \
                ip.branch(self.has_class(t, self.Undefined)):
            if name in ('define', 'register'):
                return SymMethod(v, name)
            if name == 'field':
                return self.undefined_field(ip, u)
            raise Unsupported('callbacks of a symbolic placeholder')
        if cands:
            if ip.branch(z3.Or([self.has_class(t, c) for c in cands])):
                return SymMethod(v, name)
        if name in ('pattern', 'flags') and ip.branch(self.has_class(t, re.Pattern)):
            r = app('PAT_' + name.upper(), [u], Val)
            ip.ctx.fact(is_int(r) if name == 'flags' else is_str(r))
            return Sym(r)
        if data:
            if ip.branch(z3.Or([self.has_class(t, c) for c in data])):
                return ip.models.temporal_attr(ip, v, name)
        if not fieldattr and ip.branch(self.has_class(t, self.Field)):
            # an extension aspect, or None
            return self.field_attr(ip, u, name)
        if ip.branch(z3.And(is_ref(t), CLS(u) == self.other)):
            # an arbitrary object: the attribute may be there or not
            if ip.branch(app('HASATTR_' + name, [u], B)):
                return Sym(app('OBJATTR_' + name, [u], Val))
        ip.raise_(AttributeError, name)

    FIELD_ATTRS = ('name', 'default', 'required', 'ignore_null', 'nonnull', 'constant', 'type',
        'guaranteed_name', 'instantiator', 'extractor', 'preprocessor', 'title', 'description',
        'notes', 'aspects', 'structural', 'basetype', 'equivalent', 'errors', 'parameters')

    def field_attr(self, ip, u, name):
        for (n2, u2, value) in reversed(ip.ctx.attrver.get('log', [])):
            if n2 == name and ip.ctx.branch(u2 == u):
                return value
        if name == 'name' and ip.ctx.naming and any(e[0] == 'named' for e in ip.events):
            raise Unsupported('the name of a field is read after one was given')
        r = app('attr_' + name, [u], Val)
        if name in ('required', 'ignore_null', 'nonnull', 'structural'):
            ip.ctx.fact(is_bool(r))
        if name in ('name',):
            ip.ctx.fact(z3.Or(is_none(r), is_str(r)))
        if name in ('type',):
            ip.ctx.fact(is_str(r))
        return ip.norm(Sym(r))

    def undefined_field(self, ip, u):
        r = app('undef_field', [u], Val)
        ip.ctx.fact(z3.Or(is_none(r), self.has_class(r, self.Field)))
        return Sym(r)

    def sym_setattr(self, ip, v, name, value):
        if ip.branch(self.has_class(v.t, self.Field)):
            if name == 'name' and ip.ctx.naming:
                if not ip.branch(app('attr_name', [rv(v.t)], Val) == ip.val(value)):
                    ip.events.append(('named', v, value))
                return
            ip.violations.append((v, ('attr', name)))
            log = ip.ctx.attrver.setdefault('log', [])
            if ip.ctx.recorders:
                raise Unsupported('attribute of a symbolic field set in a loop')
            log.append((name, rv(v.t), value))
            ip.ctx.log(lambda: log.pop())
            return
        raise Unsupported('attribute %s set on an arbitrary value' % name)

    def origin_attr(self, ip, inst, name):
        """attributes of an error raised by a child, known only through its contract"""
        o = inst.origin
        if o[0] == 'child':
            if name in ('errors', 'structure', 'identity', 'value', 'field', 'tracebacks'):
                raise Unsupported('attribute %s of a child error' % name)
        return None

    # -- methods
    def sym_method(self, ip, v, name, args, kwargs):
        own = getattr(ip.ctx, 'methods', {}).get(name)
        if own is not None:
            return own(ip, v, args, kwargs)
        if ip.ctx.formats and name in ('serialize', 'unserialize'):
            return self.format_call(ip, v, name, args, kwargs)
        if name in self.FIELD_METHODS and ip.branch(self.has_class(v.t, self.Field)):
            return self.child_call(ip, v, name, args, kwargs)
        if name in ('define', 'register'):
            return self.placeholder_call(ip, v, name, args, kwargs)
        return ip.models.sym_method(ip, v, name, args, kwargs)

    def format_call(self, ip, v, name, args, kwargs):
        """a format, known by what it is given"""
        (value, schema), rest = self.bindargs(ip, ['value', 'schema'], [UNBOUND, None], args, kwargs)
        params = Sym(self.params_term(ip, rest))
        ip.events.append(('format', name, v, value, schema, params))
        return Sym(app('FORMAT_' + name, [ip.val(v), ip.val(value), ip.val(schema), params.t], Val))

    def placeholder_call(self, ip, v, name, args, kwargs):
        if name == 'register':
            ip.events.append(('register', v, tuple(args)))
            return None
        raise Unsupported('define on a symbolic placeholder')

    # -- child fields: their contracts
    def bindargs(self, ip, names, defaults, args, kwargs):
        out = dict(zip(names, args))
        if len(args) > len(names):
            ip.raise_(TypeError, 'too many arguments')
        rest = {}
        for k, x in kwargs.items():
            if k in names:
                out[k] = x
            else:
                rest[k] = x
        for n, d in zip(names, defaults):
            if n not in out:
                if d is UNBOUND:
                    ip.raise_(TypeError, 'missing argument')
                out[n] = d
        return [out[n] for n in names], rest

    def boolterm(self, ip, v):
        v = ip.norm(ip.force(v))
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SBool):
            return v.t
        f = ip.truth_formula(v) if not is_const(v) else bool(v)
        return z3.BoolVal(f) if isinstance(f, bool) else f

    def error(self, ip, cls, origin):
        inst = Inst(ip.ctx, cls)
        inst.origin = origin
        inst.attrs['args'] = ()
        return PyExc(inst)

    def child_call(self, ip, v, name, args, kwargs):
        ctx, u = ip.ctx, rv(v.t)
        E = self.exceptions
        if name == 'process':
            (value, phase, ser, anc), rest = self.bindargs(ip, ['value', 'phase', 'serialized', 'ancestry'],
                [UNBOUND, 'inbound', False, None], args, kwargs)
            if rest:
                raise Unsupported('extra arguments to process')
            terms = [u, ip.val(value), ip.val(phase), self.boolterm(ip, ser)]
            k = app('PK', terms, I)
            ctx.fact(z3.And(k >= 0, k <= 3))
            if getattr(ctx, 'rendered', None) is not None:
                self.induction(ip, u, terms[1], k)
            origin = ('child', 'process', u, (value, phase, SBool(terms[3]), anc))
            ip.events.append(origin)
            if ctx.branch(k == 0):
                return Sym(app('PR', terms, Val))
            if ctx.branch(k == 1):
                raise self.error(ip, E.InvalidTypeError, origin)
            if ctx.branch(k == 2):
                raise self.error(ip, E.ValidationError, origin)
            raise self.error(ip, E.UndefinedFieldError, origin[:2])
        if name == 'extract':
            (subject, strict), rest = self.bindargs(ip, ['subject', 'strict'], [UNBOUND, True], args, kwargs)
            pt = self.params_term(ip, rest)
            terms = [u, ip.val(subject), self.boolterm(ip, strict), pt]
            k = app('EK', terms, I)
            ctx.fact(z3.And(k >= 0, k <= 3))
            origin = ('child', 'extract', u, (subject, SBool(terms[2]), Sym(pt)))
            ip.events.append(origin)
            if ctx.branch(k == 0):
                return Sym(app('ER', terms, Val))
            if ctx.branch(k == 1):
                raise self.error(ip, E.CannotExtractError, origin[:2])
            if ctx.branch(k == 2):
                raise self.error(ip, E.FieldExcludedError, origin[:2])
            raise self.error(ip, E.UndefinedFieldError, origin[:2])
        if name == 'interpolate':
            (subject, params, interp), rest = self.bindargs(ip, ['subject', 'parameters', 'interpolator'],
                [UNBOUND, UNBOUND, None], args, kwargs)
            terms = [u, ip.val(subject), ip.val(params), ip.val(interp)]
            k = app('IK', terms, I)
            ctx.fact(z3.And(k >= 0, k <= 4))
            origin = ('child', 'interpolate', u, (subject, params, interp))
            ip.events.append(origin)
            if ctx.branch(k == 0):
                return Sym(app('IR', terms, Val))
            if ctx.branch(k == 1):
                raise self.error(ip, E.CannotInterpolateError, origin[:2])
            if ctx.branch(k == 2):
                raise self.error(ip, E.UndefinedParameterError, origin[:2])
            if ctx.branch(k == 3):
                raise self.error(ip, E.UndefinedFieldError, origin[:2])
            raise self.error(ip, ValueError, origin[:2])
        if name == 'instantiate':
            (value, key), rest = self.bindargs(ip, ['value', 'key'], [UNBOUND, None], args, kwargs)
            terms = [u, ip.val(value), ip.val(key)]
            k = app('NK', terms, I)
            ctx.fact(z3.And(k >= 0, k <= 1))
            origin = ('child', 'instantiate', u, (value, key))
            ip.events.append(origin)
            if ctx.branch(k == 0):
                return Sym(app('NR', terms, Val))
            raise self.error(ip, E.UndefinedFieldError, origin[:2])
        if name == 'filter':
            (allp,), rest = self.bindargs(ip, ['all'], [False], args, kwargs)
            terms = [u, self.boolterm(ip, allp), self.params_term(ip, rest)]
            k = app('FK', terms, I)
            ctx.fact(z3.And(k >= 0, k <= 1))
            ip.events.append(('child', 'filter', u, (SBool(terms[1]), Sym(terms[2]))))
            if ctx.branch(k == 0):
                r = app('FR', terms, Val)
                ctx.fact(z3.Or(is_none(r), self.has_class(r, self.Field)))
                return Sym(r)
            raise self.error(ip, E.CannotFilterError, ('child', 'filter'))
        if name == 'transform':
            fn = args[0] if args else kwargs.get('transformer')
            ip.events.append(('child', 'transform', u, (fn,)))
            if ctx.branch(app('TK', [u, ip.val(fn)], B)):
                r = app('TR', [u, ip.val(fn)], Val)
                ctx.fact(self.has_class(r, self.Field))
                return Sym(r)
            raise self.error(ip, UserErr, ('child', 'transform'))
        if name == 'describe':
            (parameters, verbose), rest = self.bindargs(ip, ['parameters', 'verbose'], [None, False], args, kwargs)
            if rest:
                raise Unsupported('extra arguments to describe')
            r = app('DR', [u, ip.val(parameters), self.boolterm(ip, verbose)], Val)
            ctx.fact(self.has_class(r, dict))
            ctx.fact(HAS(rv(r), VStr(strlit('fieldtype'))))
            return Sym(r)
        if name == 'screen':
            return SBool(app('SCREEN', [u, self.params_term(ip, kwargs)], B))
        if name == '_serialize_value':
            return Sym(app('SV', [u, ip.val(args[0])], Val))
        if name == 'clone':
            r = app('CL', [u, self.params_term(ip, kwargs)], Val)
            ctx.fact(self.has_class(r, self.Field))
            return Sym(r)
        raise Unsupported('%s of a child field' % name)

    def induction(self, ip, u, v, k):
        """the induction hypothesis of the round trip: what a child accepts it serializes, and reads back"""
        from .models import eq_parts
        outb, inb, yes = VStr(strlit('outbound')), VStr(strlit('inbound')), z3.BoolVal(True)
        native, text = [u, v, outb, z3.BoolVal(False)], [u, v, outb, yes]
        r, s = app('PR', native, Val), app('PR', text, Val)
        x = app('PR', [u, s, inb, yes], Val)
        ctx = ip.ctx
        ctx.fact(z3.Implies(app('PK', native, I) == 0, z3.And(app('PK', text, I) == 0, app('NATIVE', [s], B),
            is_none(s) == is_none(r), is_none(x) == is_none(r),
            app('PK', [u, s, inb, yes], I) == 0, z3.Or(x == r, eq_parts(self, x, r)[2]))))
        ctx.fact(is_none(r) == is_none(v))
        self.note('structural induction: children serialize what they accept (without overflow) and read an equal value back')

    def params_term(self, ip, kw):
        """Val of a (possibly symbolic) keyword dictionary"""
        d = kw.get('**')
        rest = [(k, x) for k, x in kw.items() if k != '**']
        t = VNone
        if d is not None:
            if d.log or d.base is None:
                raise Unsupported('modified symbolic keyword arguments')
            t = VRef(d.base)
        for k, x in sorted(rest, key=lambda e: e[0]):
            t = app('KW_' + k, [t, ip.val(x)], Val)
        return t

    # -- user supplied callables
    def user_call(self, ip, fn, args, kwargs):
        if kwargs:
            raise Unsupported('keyword arguments to a user supplied callable')
        ctx = ip.ctx
        args = [ip.norm(ip.force(a)) for a in args]
        flat = all(isinstance(a, (Sym, SInt, SBool, SStr, Inst)) or is_const(a) for a in args)
        if flat:
            terms = [ip.val(a) for a in args]
            ok = app('UOK_' + fn.name, terms, B)
            res = Sym(app('URES_' + fn.name, terms, Val))
        else:
            ok = z3.Const('UOKC_' + fn.name, B)
            res = Opaque(ctx, ('user', fn.name, tuple(args)))
        ip.events.append(('user', fn.name, tuple(args)))
        if not getattr(fn, 'total', False) and not ctx.branch(ok):
            inst = Inst(ctx, UserErr)
            inst.origin = ('user', fn.name, tuple(args))
            inst.attrs['id'] = ctx.fresh('exc', I)
            inst.attrs['args'] = ()
            raise PyExc(inst)
        if getattr(fn, 'returns', None) is not None:
            fn.returns(ip, res)
        return res
