"""Goals for screening, extraction, instantiation and interpolation."""
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from .interp import UserErr

interpolation = scheme.interpolation
CANNOT = {'extract': E.CannotExtractError, 'interpolate': E.CannotInterpolateError}

# ---------------------------------------------------------------- children
def child_convey(kind):
    name = {'child_extract': 'extract', 'child_interpolate': 'interpolate', 'child_instantiate': 'instantiate'}[kind]
    table = [(E.UndefinedFieldError, lambda i: ('undefined',))]
    if name == 'extract':
        table += [(E.CannotExtractError, lambda i: ('cannot',)), (E.FieldExcludedError, lambda i: ('excluded',))]
    elif name == 'interpolate':
        table += [(E.CannotInterpolateError, lambda i: ('cannot',)),
            (E.UndefinedParameterError, lambda i: ('undefparam',)), (ValueError, lambda i: ('other',))]
    def get(ip, args, kw):
        c, rest = args[0], list(args[1:])
        f = placeholder(ip, c)
        if f is None:
            return ('undefined',)
        kw = {}
        if name == 'extract':
            rest, kw = rest[:2], {'**': rest[2]}
        elif name == 'interpolate':
            rest.append(ip.goal['interpolator'])
        elif rest[1] is None:
            rest = rest[:1]
        try:
            return ('ok', ip.world.child_call(ip, f, name, rest, kw))
        except PyExc as e:
            for cls, make in table:
                if issubclass(e.inst.cls, cls):
                    return make(e.inst)
            raise
    return get
for _n in ('child_extract', 'child_interpolate', 'child_instantiate'):
    models.model(getattr(prim, _n))(child_convey(_n))

@models.model(prim.attribute)
def m_attribute(ip, args, kw):
    return models.m_getattr(ip, [args[0].attrs['real'], args[1], None], {})

@models.model(prim.convert)
def m_convert(ip, args, kw):
    try:
        return ('ok', ip.call(args[0], [args[1]], {}))
    except PyExc:
        return ('other',)

# ---------------------------------------------------------------- callees known by their contract
def screen_term(ip, who, params):
    pt = ip.world.params_term(ip, {'**': params})
    return SBool(app('SCREENS', [ip.val(who), pt], B))

def c_screen(ip, args, kw):
    return screen_term(ip, args[0], kw['**'] if '**' in kw else ip.new_dict(kw))

def s_screen(ip, args, kw):
    return screen_term(ip, args[0].attrs['real'], args[1])

def interpolated(ip, v, params, interp, simple):
    """outcome of interpolating: (kind, value)"""
    v = ip.norm(ip.force(v))
    t = ip.val(v)
    if not ip.branch(is_str(t)):
        return ('other', ValueError)
    if ip.branch(t == VStr(strlit(''))):
        return ('ok', '')
    terms = [t, ip.val(params), ip.val(interp)]
    s = 'S' if simple else 'T'
    k = app('IPK' + s, terms, I)
    ip.ctx.fact(z3.And(k >= 0, k <= 2))
    if ip.branch(k == 0):
        r = app('IPR' + s, terms, Val)
        if not simple:
            ip.ctx.fact(is_str(r))
        return ('ok', Sym(r))
    if simple and ip.branch(k == 1):
        return ('undefparam', E.UndefinedParameterError)
    return ('other', RuntimeError)

def c_interpolate(ip, args, kw):
    a, rest = ip.world.bindargs(ip, ['subject', 'parameters', 'simple', 'interpolator'], [UNBOUND, UNBOUND, False, None],
        args, kw)
    simple = ip.branch(ip.truth_formula(a[2])) if not isinstance(a[2], bool) else a[2]
    ip.events.append(('interpolate', 'parameters', tuple(a)))
    o = interpolated(ip, a[0], a[1], a[3], simple)
    if o[0] == 'ok':
        return o[1]
    ip.raise_(o[1])

def s_interpolate(simple):
    def get(ip, args, kw):
        o = interpolated(ip, args[0], args[1], ip.goal['interpolator'], simple)
        return (o[0],) if o[0] != 'ok' else o
    return get
models.model(prim.evaluate)(s_interpolate(True))
models.model(prim.render)(s_interpolate(False))

SCREENING = {Field.screen: c_screen, CC.screen: s_screen}
INTERPOLATING = {interpolation.interpolate_parameters: c_interpolate}

# ---------------------------------------------------------------- comparing
class ConveyObs(PObs):
    def match_convey(self, method, real, spec):
        ip = self.ip
        if spec.kind == 'raise':
            raise Unsupported('the contract raised %r' % (spec.value,))
        s = spec.value
        tag = s[0]
        if tag == 'ok' and s[1] is not None:
            tag = 'value'
        if tag not in self.report.covered and ip.ctx.check() == z3.sat:
            self.report.covered.add(tag)
        if s[0] == 'other':
            return self.check('open', True)
        if s[0] == 'ok':
            if real.kind != 'return':
                return self.check('outcome', False, 'raised %r' % (real.value,))
            return self.same('result', real.value, s[1])
        cls = {'excluded': E.FieldExcludedError, 'cannot': CANNOT.get(method), 'undefined': E.UndefinedFieldError,
            'undefparam': E.UndefinedParameterError, 'raised': UserErr}[s[0]]
        self.check('outcome', real.kind == 'raise' and isinstance(real.value.cls, type) and
            issubclass(real.value.cls, cls), '%r, contract says %s' % (real, s[0]))

def valid_shape(ip, typ, v, p, poly):
    """the value has the shape of a valid value of the field"""
    w = ip.world
    exact = {'sequence': list, 'tuple': tuple, 'map': dict, 'structure': dict}.get(typ)
    if exact is None:
        return
    u = rv(v.t)
    ip.ctx.assume(z3.Or(is_none(v.t), z3.And(is_ref(v.t), CLS(u) == w.exact[exact], LEN(u) >= 0)))
    if typ == 'tuple':
        ip.ctx.assume(z3.Implies(is_ref(v.t), LEN(u) == LEN(rv(p.attrs['values'].t))))
    if typ == 'structure':
        s = rv(p.attrs['structure'].t)
        if poly:
            d = app('attr_name', [rv(p.attrs['polymorphic_on'].t)], Val)
            i = GET(u, d)
            ip.ctx.assume(z3.Implies(is_ref(v.t), z3.And(HAS(u, d), HAS(s, i),
                z3.Implies(is_ref(i), HASHABLE(rv(i))))))
            s = rv(GET(s, i))
        def keys(i):
            k = KEYAT(u, i)
            return z3.Implies(is_ref(v.t), z3.And(HAS(s, k), stored(ip, GET(s, k))))
        ip.ctx.add_univ(z3.IntVal(0), LEN(u), keys)

def goal_convey(method, typ, poly=False, mode='all'):
    hook = {'extract': ('extractor',), 'instantiate': ('instantiator',), 'interpolate': ()}[method]
    def run(ip, obs):
        p, field = make(ip, typ, hooks=hook, poly=poly)
        ip.world.ref_of(ip, field)
        v = Sym(z3.Const('v', Val))
        ip.goal = {}
        if method == 'extract':
            ip.overrides = SCREENING
            u = z3.Const('screening', I)
            ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
            params = DObj(ip.ctx, dict, u)
            params.ref = u
            strict = sbool('strict')
            call = lambda: ip.call(ip.getattr_(field, 'extract'), [v, strict], {'**': params})
            spec_ = lambda: ip.call(CC.extract, [p, v, strict, params], {})
        elif method == 'interpolate':
            ip.overrides = INTERPOLATING
            params, interp = Sym(z3.Const('parameters', Val)), Sym(z3.Const('interpolator', Val))
            ip.goal['interpolator'] = interp
            call = lambda: ip.call(ip.getattr_(field, 'interpolate'), [v, params, interp], {})
            spec_ = lambda: ip.call(CC.interpolate, [p, v, params], {})
        else:
            valid_shape(ip, typ, v, p, poly)
            key = Sym(z3.Const('key', Val))
            call = lambda: ip.call(ip.getattr_(field, 'instantiate'), [v, key], {})
            spec_ = lambda: ip.call(CC.instantiate, [p, v, key], {})
        if not ip.ctx.feasible():
            raise Infeasible()
        ip.frame_mark = ip.ctx.counter
        ip.events, ip.violations = [], []
        real = attempt(ip, call)
        obs.frame('frame')
        ip.frame_mark = None
        events, ip.events = [e for e in ip.events if e[0] != 'interpolate'], []
        spec = attempt(ip, spec_)
        called = method == 'instantiate' and (events or ip.events)
        if called and ip.ctx.choose(2) == 1:
            obs.same_events('calls', events, ip.events)
        else:
            obs.match_convey(method, real, spec)
    return run

def goal_screen(ip, obs):
    """screening: for every dict of parameters"""
    p, field = make(ip, 'field', hooks=())
    ip.world.ref_of(ip, field)
    u = z3.Const('screening', I)
    ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
    ip.ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: is_str(KEYAT(u, i)))
    params = DObj(ip.ctx, dict, u)
    params.ref = u
    ip.frame_mark = ip.ctx.counter
    ip.violations = []
    real = attempt(ip, lambda: ip.call(ip.getattr_(field, 'screen'), [], {'**': params}))
    obs.frame('frame')
    ip.frame_mark = None
    spec = attempt(ip, lambda: ip.call(CC.screen, [p, params], {}))
    if spec.kind == 'raise':
        obs.check('outcome', real.kind == 'raise', 'comparison')
        return
    if real.kind == 'raise':
        return obs.check('outcome', False, '%r' % (real,))
    obs.same('result', real.value, spec.value)

GOALS['screen'] = goal_screen
EXPECT['screen'] = set()
for t in ('field',) + STRUCTURAL + ('structure.polymorphic',):
    b = t.split('.')[0]
    GOALS['extract.' + t] = goal_convey('extract', b, '.' in t)
    EXPECT['extract.' + t] = {'ok', 'value', 'excluded', 'cannot'} | ({'undefined'} if b != 'field' else set())
    if b != 'union':
        GOALS['instantiate.' + t] = goal_convey('instantiate', b, '.' in t)
        EXPECT['instantiate.' + t] = {'ok', 'value', 'raised'} | ({'undefined'} if b != 'field' else set())
for t in SCALARS + STRUCTURAL + ('structure.polymorphic',):
    b = t.split('.')[0]
    GOALS['interpolate.' + t] = goal_convey('interpolate', b, '.' in t)
    EXPECT['interpolate.' + t] = {'ok', 'value'} | ({'undefined', 'cannot'} if b in STRUCTURAL else set())
for n in list(GOALS):
    if n.split('.')[0] in ('extract', 'instantiate', 'interpolate'):
        OBSERVERS[n] = ConveyObs
