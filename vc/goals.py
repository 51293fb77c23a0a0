"""The proof obligations: each goal runs one function of /repo and its contract on the same
symbolic inputs (all configurations, all values) and compares what they do on every path."""
import json
import re
import sys
import time
import z3
from .setup import load
scheme = load()
from .smt import *
from .core import *
from .interp import Interp, Frame, is_const, UserErr, symseg
from .world import World, Opaque
from . import models
from .prove import Obs, Outcome, Report, attempt, verify, Failed
from contracts import prim, process as CP, values as CV, convey as CC

E = scheme.exceptions
F = scheme.fields
Field, Undefined = scheme.field.Field, scheme.field.Undefined
INB, OUTB = 'inbound', 'outbound'

CLASSES = {'integer': F.Integer, 'float': F.Float, 'boolean': F.Boolean, 'text': F.Text,
    'binary': F.Binary, 'decimal': F.Decimal, 'date': F.Date,
    'datetime': F.DateTime, 'time': F.Time, 'uuid': F.UUID, 'token': F.Token,
    'enumeration': F.Enumeration, 'sequence': F.Sequence, 'tuple': F.Tuple, 'map': F.Map,
    'structure': F.Structure, 'union': F.Union, 'field': Field}
SCALARS = ('integer', 'float', 'boolean', 'text', 'binary', 'decimal', 'date', 'datetime', 'time',
    'uuid', 'token', 'enumeration', 'field')
STRUCTURAL = ('sequence', 'tuple', 'map', 'structure', 'union')

ALLPARAMS = ('name', 'description', 'default', 'nonnull', 'ignore_null', 'required', 'constant',
    'title', 'notes', 'nonempty', 'instantiator', 'extractor', 'preprocessor', 'aspects', 'minimum',
    'maximum', 'utc', 'pattern', 'min_length', 'max_length', 'strip', 'segments', 'enumeration',
    'ignored_values', 'item', 'unique', 'values', 'value', 'key', 'required_keys', 'structure',
    'strict', 'polymorphic_on', 'key_order', 'fields', 'field')

class PRec(object):
    """parameter record of a field: what its constructor was given"""

# ---------------------------------------------------------------- primitives of the contracts
def out(kind, *rest):
    return (kind,) + rest

def placeholder(ip, c):
    """-> the field a child stands for, or None when it is an undefined placeholder"""
    c = ip.norm(ip.force(c))
    if isinstance(c, Sym):
        if ip.branch(ip.world.has_class(c.t, Undefined)):
            f = app('undef_field', [rv(c.t)], Val)
            ip.ctx.fact(z3.Or(is_none(f), ip.world.has_class(f, Field)))
            if ip.branch(is_none(f)):
                return None
            return Sym(f)
    return c

def child_outcome(ip, c, name, args, table):
    f = placeholder(ip, c)
    if f is None:
        return ('undefined',)
    try:
        return ('ok', ip.world.child_call(ip, f, name, args, {}))
    except PyExc as e:
        for cls, make in table:
            if issubclass(e.inst.cls, cls):
                return make(e.inst)
        raise Unsupported('child outcome')

@models.model(prim.child_process)
def m_child_process(ip, args, kw):
    c, v, phase, ser, path = args
    return child_outcome(ip, c, 'process', [v, phase, ser, path], [
        (E.UndefinedFieldError, lambda i: ('undefined',)),
        (E.InvalidTypeError, lambda i: ('fail', 'type', ('child',), i, None, None, None)),
        (E.ValidationError, lambda i: ('fail', 'invalid', ('child',), i, None, None, None))])

@models.model(prim.is_undefined)
def m_is_undefined(ip, args, kw):
    return placeholder(ip, args[0]) is None

def child_attr(*names):
    def get(ip, args, kw):
        f = placeholder(ip, args[0])
        if f is None:
            raise Unsupported('attribute of an undefined placeholder')
        r = False
        for n in names:
            r = ip.world.field_attr(ip, rv(f.t), n)
        return r
    return get
models.model(prim.child_default)(child_attr('default'))
models.model(prim.child_required)(child_attr('required'))
models.model(prim.child_ignores_null)(child_attr('ignore_null'))

@models.model(prim.hook)
def m_hook(ip, args, kw):
    fn, a = args
    try:
        return ('ok', ip.call(fn, list(ip.concrete_items(a)), {}))
    except PyExc as e:
        if issubclass(e.inst.cls, UserErr):
            return ('raised',)
        raise

@models.model(prim.matches)
def m_matches(ip, args, kw):
    pattern, text = [ip.norm(ip.force(a)) for a in args]
    if isinstance(pattern, re.Pattern):
        return models.wrapb(models.pattern_formula(ip, pattern.pattern, pattern.flags, 'match', ip.val(text)))
    t = ip.val(pattern)
    if ip.branch(is_str(t)):
        pattern = models.compiled(ip, t)
    return models.wrapb(app('PMATCH', [ip.val(pattern), ip.val(text)], B))

for _p in (prim.TOKEN, prim.UUID):
    models.KNOWN_PATTERNS.add((_p, re.compile(_p).flags, 'match'))

def whole(pattern):
    def m(ip, args, kw):
        text = ip.val(ip.norm(ip.force(args[0])))
        return models.wrapb(models.pattern_formula(ip, pattern, re.compile(pattern).flags, 'match', text))
    return m
models.model(prim.is_token)(whole(prim.TOKEN))
models.model(prim.is_uuid)(whole(prim.UUID))

@models.model(CV.duplicates)
def m_duplicates(ip, args, kw):
    seq = ip.norm(ip.force(args[0]))
    if isinstance(seq, LObj) and not all(isinstance(s, ItemsSeg) for s in seq.segs):
        dup = ip.branch(ip.ctx.fresh('duplicates', B))
        models.decide_duplicates(ip, seq, dup)
        return dup
    xs = ip.concrete_items(seq)
    for i, x in enumerate(xs):
        for y in xs[:i]:
            if ip.branch(models.or_same(ip, x, y)):
                return True
    return False

@models.model(prim.own_field)
def m_own_field(ip, args, kw):
    return args[0].attrs['real']

# ---------------------------------------------------------------- symbolic inputs
def isnone_or(ip, name, *classes):
    x = Sym(z3.Const(name, Val))
    ip.ctx.assume(z3.Or([is_none(x.t)] + [ip.world.has_class(x.t, c) for c in classes]))
    return x

def sbool(name):
    return SBool(z3.Const(name, B))

def userfn(ip, name):
    """None or a user supplied callable"""
    return None if ip.ctx.choose(2) == 0 else UserFn(name)

def record(ip, typ, **attrs):
    p = Inst(ip.ctx, PRec)
    for a in ALLPARAMS:
        p.attrs[a] = False if a in ('nonnull', 'required', 'ignore_null', 'nonempty', 'unique', 'utc') \
            else True if a in ('strip', 'strict') else None
    p.attrs['type'] = typ
    p.attrs.update(attrs)
    return p

def child(ip, name):
    """any child: a field, or a placeholder, defined or not"""
    c = z3.Const(name, Val)
    u = rv(c)
    f = app('undef_field', [u], Val)
    ip.ctx.assume(z3.Or(ip.world.has_class(c, Field),
        z3.And(ip.world.has_class(c, Undefined), z3.Or(is_none(f), ip.world.has_class(f, Field)))))
    return Sym(c)

def common(ip, hooks=('preprocessor',)):
    a = {'name': isnone_or(ip, 'p.name', str),
         'nonnull': sbool('p.nonnull'), 'required': sbool('p.required'),
         'ignore_null': sbool('p.ignore_null'), 'nonempty': sbool('p.nonempty'),
         'default': Sym(z3.Const('p.default', Val)), 'constant': Sym(z3.Const('p.constant', Val))}
    for h in hooks:
        a[h] = userfn(ip, h)
    return a

def anything(ip, field, *but):
    """the attributes that parameters of all fields set may hold anything"""
    for a in ('name', 'default', 'constant', 'title', 'description', 'notes', 'nonnull', 'required', 'ignore_null', 'preprocessor',
            'extractor', 'instantiator', 'aspects', 'min_length', 'max_length', 'unique', 'strict', 'key_order'):
        if a in field.attrs and a not in but:
            field.attrs[a] = sbool('a.' + a) if a in ('nonnull', 'required', 'ignore_null', 'unique', 'strict') else \
                isnone_or(ip, 'a.name', str) if a == 'name' else Sym(z3.Const('a.%d.%s' % (field.serial, a), Val))

def own(ip, typ, poly=False):
    w = ip.world
    import decimal, datetime
    if typ == 'integer':
        return {'minimum': Sym(z3.Const('p.minimum', Val)), 'maximum': Sym(z3.Const('p.maximum', Val))}
    if typ in ('float', 'decimal', 'date', 'time'):
        return {'minimum': Sym(z3.Const('p.minimum', Val)), 'maximum': Sym(z3.Const('p.maximum', Val))}
    if typ == 'datetime':
        return {'minimum': Sym(z3.Const('p.minimum', Val)), 'maximum': Sym(z3.Const('p.maximum', Val)),
                'utc': sbool('p.utc')}
    if typ == 'text':
        return {'min_length': Sym(z3.Const('p.min_length', Val)),
                'max_length': Sym(z3.Const('p.max_length', Val)), 'strip': sbool('p.strip'),
                'pattern': isnone_or(ip, 'p.pattern', str, re.Pattern)}
    if typ == 'binary':
        return {'min_length': Sym(z3.Const('p.min_length', Val)),
                'max_length': Sym(z3.Const('p.max_length', Val))}
    if typ == 'token':
        return {'segments': Sym(z3.Const('p.segments', Val))}
    if typ == 'enumeration':
        e = Sym(z3.Const('p.enumeration', Val))
        ip.ctx.assume(z3.Or([w.has_class(e.t, c) for c in (str, list, tuple)]))
        w.note('enumerations are given as text, lists or tuples (other iterables: monitored only)')
        return {'enumeration': e,
                'ignored_values': Sym(z3.Const('p.ignored_values', Val))}
    if typ == 'sequence':
        return {'item': child(ip, 'p.item'), 'min_length': Sym(z3.Const('p.min_length', Val)),
                'max_length': Sym(z3.Const('p.max_length', Val)), 'unique': sbool('p.unique')}
    if typ in ('tuple', 'union'):
        xs = children(ip, 'p.values')
        return {'values' if typ == 'tuple' else 'fields': xs}
    if typ == 'map':
        # the key field is a field by the constructor's own check
        rk = z3.Const('p.required_keys', Val)
        ip.ctx.assume(z3.Or(is_none(rk), z3.And(is_ref(rk), CLS(rv(rk)) == w.exact[list])))
        ip.ctx.add_univ(z3.IntVal(0), LEN(rv(rk)), lambda i: z3.And(
            app('POS', [rv(rk), AT(rv(rk), i)], I) == i,
            z3.Or(z3.Not(is_ref(AT(rv(rk), i))), HASHABLE(rv(AT(rv(rk), i))))))
        w.note('required keys are a list of distinct hashable keys (text split by the constructor and lists with '
               'repeated keys: monitored)')
        return {'value': child(ip, 'p.value'), 'key': isnone_or(ip, 'p.key', Field), 'required_keys': Sym(rk)}
    if typ == 'structure':
        return {'structure': None if poly else members(ip, 'p.structure'), 'strict': sbool('p.strict')}
    return {}

def is_child(ip, c):
    """formula: a field, or a placeholder, defined or not"""
    f = app('undef_field', [rv(c)], Val)
    return z3.Or(ip.world.has_class(c, Field),
        z3.And(ip.world.has_class(c, Undefined), z3.Or(is_none(f), ip.world.has_class(f, Field))))

def children(ip, name):
    """a non-empty list of children"""
    u = z3.Const(name, I)
    ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[list], LEN(u) > 0))
    ip.ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: is_child(ip, AT(u, i)))
    return Sym(VRef(u))

def stored(ip, c):
    """formula: a field, or a placeholder still undefined (constructors replace the others)"""
    return z3.Or(ip.world.has_class(c, Field), z3.And(ip.world.has_class(c, Undefined),
        is_none(app('undef_field', [rv(c)], Val))))

def members(ip, name):
    """a dict of children under text keys"""
    u = z3.Const(name, I)
    ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
    ip.ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: z3.And(is_str(KEYAT(u, i)), stored(ip, GET(u, KEYAT(u, i)))))
    return Sym(VRef(u))

def polymorphic(ip, params):
    """a discriminator and a dict of variants, as the constructor leaves them"""
    d = z3.Const('p.polymorphic_on', Val)
    name = app('attr_name', [rv(d)], Val)
    ip.ctx.assume(z3.And(ip.world.has_class(d, Field), is_str(name)))
    u = z3.Const('p.structure', I)
    ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
    def variant(ip, w, kt):
        if ip.ctx.insub or not w.eq(u):
            return
        x = rv(GET(u, kt))
        ip.ctx.fact(z3.And(is_ref(GET(u, kt)), CLS(x) == ip.world.exact[dict], LEN(x) > 0, HAS(x, name)))
        ip.ctx.add_univ(z3.IntVal(0), LEN(x), lambda i: z3.And(is_str(KEYAT(x, i)), stored(ip, GET(x, KEYAT(x, i)))))
    def keyhook(ip, w, kt):
        w = z3.simplify(w)
        if not any(a.eq(w) and b.eq(kt) for a, b in seen):
            seen.append((w, kt))
            ip.ctx.log(lambda: seen.pop())
            variant(ip, w, kt)
    seen = []
    ip.ctx.keyhook = keyhook
    params['structure'] = Sym(VRef(u))
    params['polymorphic_on'] = Sym(d)
    ip.world.note('the variants of a polymorphic structure are non-empty dicts of fields or undefined placeholders under '
        'text keys, each with the discriminator among them (constructor invariant, monitored)')

def make(ip, typ, hooks=('preprocessor',), poly=False):
    """(record, field): the field is what the real constructor builds from the record"""
    params = common(ip, hooks)
    params.update(own(ip, typ, poly))
    try:
        given = dict(params)
        if typ == 'structure':
            # what the constructor makes of the members is assumed (see members)
            given['structure'] = ip.new_dict({}) if hasattr(ip, 'new_dict') else {}
        field = ip.construct(CLASSES[typ], [], given)
        if typ == 'structure':
            if poly:
                polymorphic(ip, params)
                field.attrs['polymorphic_on'] = params['polymorphic_on']
            field.attrs['structure'] = params['structure']
    except PyExc as e:
        raise Infeasible()
    p = record(ip, typ, **params)
    p.attrs['real'] = field
    # attributes that play no part in processing may hold anything
    for a in ('title', 'description', 'notes'):
        field.attrs[a] = Sym(z3.Const('p.' + a, Val))
    return p, field

def ancestry(ip):
    if ip.ctx.choose(2) == 0:
        return None, None
    u = z3.Const('path', I)
    ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[list], LEN(u) > 0))
    return Sym(VRef(u)), Sym(VRef(u))

# ---------------------------------------------------------------- comparing outcomes
def as_list(ip, v):
    return ip.concrete_items(v)

def eq_any(ip, a, options):
    """formula: a is one of the options"""
    a = ip.norm(ip.force(a))
    fs = []
    for b in options:
        b = ip.norm(ip.force(b))
        if a is b:
            return True
        if isinstance(a, Obj) and a.ref is None or isinstance(b, Obj) and b.ref is None:
            continue
        if isinstance(a, (tuple, bytes)) or isinstance(b, (tuple, bytes)):
            if a == b:
                return True
            continue
        fs.append(ip.val(a) == ip.val(b))
    return z3.simplify(z3.Or(fs)) if fs else False

class PObs(Obs):
    def match_process(self, real, spec):
        """real: Outcome of the method; spec: value returned by the contract"""
        ip = self.ip
        if spec.kind == 'raise':
            raise Unsupported('the contract raised %r %r' % (spec.value, spec.value.attrs.get('args')))
        s = spec.value
        if real.kind == 'raise' and not (isinstance(real.value.cls, type) and issubclass(
                real.value.cls, (E.StructuralError, E.UndefinedFieldError))):
            return self.check('escape', False, 'raised %s%r, contract says %r' % (
                real.value.cls.__name__, real.value.attrs.get('args'), s[0]))
        if s[0] == 'ok':
            if real.kind != 'return':
                return self.check('outcome', False, 'valid value refused with %s' %
                                  real.value.cls.__name__)
            self.check('escape', True)
            return self.same('result', real.value, s[1])
        if s[0] == 'undefined':
            return self.check('undefined', real.kind == 'raise' and
                              issubclass(real.value.cls, E.UndefinedFieldError), '%r' % (real,))
        if real.kind != 'raise':
            return self.check('outcome', False, 'invalid value accepted: %r' % (s[1:3],))
        self.check('escape', True)
        self.match_error(real.value, s)

    def match_safe(self, real):
        """a result, or an error of the library"""
        if real.kind == 'return':
            tag = 'ok' if self.ip.norm(self.ip.force(real.value)) is None else 'value'
            ok = True
        else:
            cls = real.value.cls
            ok = isinstance(cls, type) and issubclass(cls, (E.StructuralError, E.UndefinedFieldError))
            tag = 'fail' if ok and issubclass(cls, E.StructuralError) else 'undefined'
        self.check('escape', ok, 'raised %r' % (real,))
        if ok and tag not in self.report.covered and self.ip.ctx.check() == z3.sat:
            self.report.covered.add(tag)

    def match_error(self, inst, s):
        ip = self.ip
        inst = ip.norm(ip.force(inst))
        if not isinstance(inst, Inst):
            return self.check('outcome', False, 'no error: %r, expected %r' % (inst, s[1:3]))
        if s[2] == ('child',):
            if inst.origin is None:
                return self.check('outcome', False, 'own error instead of the child\'s')
            self.check('outcome', inst.cls is s[3].cls)
            return self.same_origin('child error', inst.origin, s[3].origin, 0)
        if inst.origin is not None:
            return self.check('outcome', False, 'child error instead of own: %r' % (s[1:3],))
        cls = E.InvalidTypeError if s[1] == 'type' else E.ValidationError
        if not issubclass(inst.cls, E.StructuralError):
            return self.check('escape', False, inst.cls.__name__)
        self.check('kind', inst.cls is cls, '%s, expected %s' % (inst.cls.__name__, cls.__name__))
        errors = as_list(ip, inst.attrs['errors'])
        tokens = [ip.norm(ip.getitem(e, 'token')) for e in errors]
        wanted = as_list(ip, s[2])
        if wanted:
            self.check('token', len(tokens) == 1 and tokens[0] in wanted, '%s, expected %s' % (tokens, wanted))
            st = ip.norm(ip.force(inst.attrs['structure']))
            self.check('structure', st is None, 'structure on an own error')
        else:
            self.check('token', not tokens, '%s on a structural error' % tokens)
        fld = ip.force(inst.attrs['field'])
        self.check('field', fld is s[6].attrs['real'], 'field')
        self.check('value', eq_any(ip, inst.attrs['value'], as_list(ip, s[3])), 'offending value')
        if s[4] is not None:
            self.same('path', inst.attrs['identity'], s[4])
        if s[5] is not None:
            self.leaf = self.element
            try:
                self.same('structure', inst.attrs['structure'], s[5])
            finally:
                self.leaf = None

    def element(self, a, b):
        """an element of the structure of an error: real, contract"""
        ip = self.ip
        b = ip.norm(ip.force(b))
        if b is None:
            a = ip.norm(ip.force(a))
            self.check('structure', not (isinstance(a, Inst) and issubclass(a.cls, BaseException)),
                       'error at a valid element')
            return True
        if isinstance(b, tuple) and b and b[0] == 'fail':
            leaf, self.leaf = self.leaf, None
            try:
                self.match_error(a, b)
            finally:
                self.leaf = leaf
            return True
        return False

# ---------------------------------------------------------------- goals
def goal_process(typ, partial=False, poly=False, mode='all'):
    """mode: all, result (outcomes only), calls (what children and hooks are called with, in order),
    safe (nothing but the library's errors escapes, nothing that existed before is written), null (None alone)"""
    extra = {'partial': True} if partial else {}
    def run(ip, obs):
        ip.ctx.hasuses = typ == 'map'
        p, field = make(ip, typ, poly=poly)
        v = Sym(z3.Const('v', Val)) if mode != 'null' else None
        phase = Sym(z3.Const('phase', Val))
        ip.ctx.assume(z3.Or(phase.t == VStr(strlit(INB)), phase.t == VStr(strlit(OUTB))))
        ser = sbool('serialized')
        anc, path = ancestry(ip)
        if not ip.ctx.feasible():
            raise Infeasible()
        ip.frame_mark = ip.ctx.counter
        ip.events, ip.violations = [], []
        real = attempt(ip, lambda: ip.call(ip.getattr_(field, 'process'), [v, phase, ser, anc], dict(extra)))
        if mode in ('all', 'safe', 'null'):
            obs.frame('frame')
        ip.frame_mark = None
        if mode == 'safe':
            return obs.match_safe(real)
        events, ip.events = ip.events, []
        spec = attempt(ip, lambda: ip.call(CP.process, [p, v, phase, ser, path], dict(extra)))
        obs.cover(spec)
        called = mode != 'result' and (events or ip.events)
        if called and (mode == 'calls' or ip.ctx.choose(2) == 1):
            obs.same_events('calls', events, ip.events)
        elif mode != 'calls':
            obs.match_process(real, spec)
        elif not called:
            obs.check('calls', True)
    return run

GOALS = {}
OBSERVERS = {}
EXPECT = {}
for t in SCALARS + STRUCTURAL + ('structure.partial', 'structure.polymorphic'):
    for mode in ('all', 'result', 'calls', 'safe', 'null'):
        n = ('process' if mode == 'all' else mode) + '.' + t
        GOALS[n] = goal_process(t.split('.')[0], t.endswith('partial'), t.endswith('polymorphic'), mode)
        EXPECT[n] = {'ok', 'value'}
        if t != 'field':
            EXPECT[n].add('fail')
        if t.split('.')[0] in STRUCTURAL:
            EXPECT[n].add('undefined')
        if mode == 'null':
            EXPECT[n] = {'ok', 'fail'}


def prove_goal(name, deadline=120.0, timeout=4000):
    """in one process (see fork.py for many)"""
    return verify(name, World(scheme), GOALS[name], deadline, timeout, OBSERVERS.get(name, PObs))

def summary(rep):
    missing = EXPECT.get(rep.name, set()) - rep.covered
    if missing and rep.status == 'proved':
        rep.unsupported = 'no feasible path reaches %s' % sorted(missing)
    return {'goal': rep.name, 'status': rep.status, 'obligations': rep.obligations,
            'discharged': rep.discharged, 'paths': rep.paths, 'time': round(rep.time, 2),
            'solver_time': round(rep.solver_time, 2), 'queries': rep.queries,
            'labels': rep.labels, 'functions': sorted('%s:%s' % f for f in rep.functions),
            'unsupported': rep.unsupported, 'covered': sorted(rep.covered),
            'failed': [{'obligation': f.label, 'status': f.status, 'detail': f.detail[:800], 'path': list(f.trail),
                        'model': f.model} for f in rep.failed[:6]],
            'assumptions': sorted(rep.assumptions)}
