"""Goals for filtering and transforming schemas."""
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT
from .interp import UserErr
from .world import Opaque
from contracts import edit as CD

# ---------------------------------------------------------------- children
def fields_only(ip, typ, p):
    """the children are fields"""
    def field(t):
        return ip.world.has_class(t, Field)
    if typ in ('sequence', 'map'):
        ip.ctx.assume(field(p.attrs['item' if typ == 'sequence' else 'value'].t))
    elif typ in ('tuple', 'union'):
        u = rv(p.attrs['values' if typ == 'tuple' else 'fields'].t)
        ip.ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: field(AT(u, i)))
    elif typ == 'structure':
        u = rv(p.attrs['structure'].t)
        ip.ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: field(GET(u, KEYAT(u, i))))

@models.model(prim.child_filter)
def m_child_filter(ip, args, kw):
    c, every, params = args
    try:
        return ('ok', ip.world.child_call(ip, ip.norm(ip.force(c)), 'filter', [every], {'**': params}))
    except PyExc as e:
        if issubclass(e.inst.cls, E.CannotFilterError):
            return ('cannot',)
        raise

@models.model(prim.child_transform)
def m_child_transform(ip, args, kw):
    c, fn = args
    try:
        return ('ok', ip.world.child_call(ip, ip.norm(ip.force(c)), 'transform', [fn], {}))
    except PyExc as e:
        if issubclass(e.inst.cls, UserErr):
            return ('raised',)
        raise

@models.model(prim.is_field)
def m_is_field(ip, args, kw):
    v = ip.norm(ip.force(args[0]))
    if isinstance(v, Inst):
        return issubclass(v.cls, Field)
    if isinstance(v, Sym):
        return ip.branch(ip.world.has_class(v.t, Field))
    return False

# ---------------------------------------------------------------- callees known by their contract
def passes_term(ip, who, every, params):
    pt = ip.world.params_term(ip, {'**': params})
    return app('PASSES', [ip.val(who), ip.world.boolterm(ip, every), pt], B)

def c_filter(ip, args, kw):
    (every,), rest = ip.world.bindargs(ip, ['all'], [False], args[1:], kw)
    params = rest['**'] if set(rest) == {'**'} else ip.new_dict(rest)
    return args[0] if ip.branch(passes_term(ip, args[0], every, params)) else None

def s_passes(ip, args, kw):
    return SBool(passes_term(ip, args[0].attrs['real'], args[1], args[2]))

def c_clone(ip, args, kw):
    return Opaque(ip.ctx, ('clone', args[0], dict(kw)))

class EditObs(PObs):
    def match_edit(self, field, real, spec):
        ip = self.ip
        if spec.kind == 'raise':
            if issubclass(spec.value.cls, UserErr) or spec.value.origin is None:
                # a comparison of unknown objects raised
                return self.check('outcome', real.kind == 'raise', 'comparison')
            raise Unsupported('the contract raised %r' % (spec.value,))
        s = spec.value
        if s[0] not in self.report.covered and ip.ctx.check() == z3.sat:
            self.report.covered.add(s[0])
        if s[0] in ('cannot', 'raised'):
            cls = E.CannotFilterError if s[0] == 'cannot' else UserErr
            return self.check('outcome', real.kind == 'raise' and isinstance(real.value.cls, type) and
                issubclass(real.value.cls, cls), '%r, contract says %s' % (real, s[0]))
        if real.kind != 'return':
            return self.check('outcome', False, '%r, contract says %s' % (real, s[0]))
        v = ip.norm(ip.force(real.value))
        if s[0] == 'none':
            return self.check('outcome', v is None, '%r, contract says %s' % (v, s[0]))
        if s[0] == 'self':
            return self.check('outcome', v is field, '%r, contract says %s' % (v, s[0]))
        if s[0] == 'field':
            return self.same('result', v, s[1])
        if not isinstance(v, Opaque) or v.origin[0] != 'clone' or v.origin[1] is not field:
            return self.check('outcome', False, '%r, contract says %s' % (v, s[0]))
        want = dict((k, x) for op, k, x in s[1].log)
        self.check('parameters', set(want) == set(v.origin[2]), '%r of the clone' % sorted(v.origin[2]))
        for k, x in want.items():
            if k in v.origin[2]:
                y = v.origin[2][k]
                if k in ('values', 'fields'):
                    x, y = [ip.call(tuple, [z], {}) for z in (x, y)]
                self.same('clone', y, x)

def goal_edit(method, typ):
    def run(ip, obs):
        p, field = make(ip, typ, hooks=())
        ip.world.ref_of(ip, field)
        fields_only(ip, typ, p)
        ip.overrides = {Field.clone: c_clone}
        if method == 'filter':
            u = z3.Const('parameters', I)
            ip.ctx.assume(z3.And(CLS(u) == ip.world.exact[dict], LEN(u) >= 0))
            ip.ctx.add_univ(z3.IntVal(0), LEN(u), lambda i: is_str(KEYAT(u, i)))
            params = DObj(ip.ctx, dict, u)
            params.ref = u
            every = sbool('all')
            if typ in STRUCTURAL:
                ip.overrides[Field.filter] = c_filter
                ip.overrides[CD.passes] = s_passes
            call = lambda: ip.call(ip.getattr_(field, 'filter'), [every], {'**': params})
            spec_ = lambda: ip.call(CD.filter, [p, every, params], {})
        else:
            fn = UserFn('transformer')
            call = lambda: ip.call(ip.getattr_(field, 'transform'), [fn], {})
            spec_ = lambda: ip.call(CD.transform, [p, fn], {})
        if not ip.ctx.feasible():
            raise Infeasible()
        ip.frame_mark = ip.ctx.counter
        ip.events, ip.violations = [], []
        real = attempt(ip, call)
        obs.frame('frame')
        ip.frame_mark = None
        events, ip.events = ip.events, []
        spec = attempt(ip, spec_)
        called = method == 'transform' and (events or ip.events)
        if called and ip.ctx.choose(2) == 1:
            obs.same_events('calls', events, ip.events)
        else:
            obs.match_edit(field, real, spec)
    return run

for t in ('field',) + STRUCTURAL:
    if t != 'union':
        GOALS['filter.' + t] = goal_edit('filter', t)
        EXPECT['filter.' + t] = {'self', 'none'} | ({'clone', 'cannot'} if t in STRUCTURAL else set())
        OBSERVERS['filter.' + t] = EditObs
    GOALS['transform.' + t] = goal_edit('transform', t)
    EXPECT['transform.' + t] = {'self', 'field', 'raised'} | ({'clone'} if t in STRUCTURAL else set())
    OBSERVERS['transform.' + t] = EditObs
