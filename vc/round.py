"""Goals for reading back what was serialized: the real code serializes a value and unserializes the result."""
import datetime
import z3
from .goals import *
from .goals import GOALS, OBSERVERS, EXPECT

def natively(ip, typ, s):
    """formula: s is natively serializable (a binary field: bytes)"""
    s = ip.norm(ip.force(s))
    if isinstance(s, (LObj, DObj, tuple)):
        return typ == 'enumeration'
    t, w = ip.val(s), ip.world
    if typ == 'binary':
        return z3.Or(is_none(t), w.has_class(t, bytes))
    fs = [is_none(t), is_bool(t), is_int(t), is_flt(t), is_str(t)]
    if typ == 'enumeration':
        fs += [w.has_class(t, c) for c in (dict, list, tuple)]
    if typ in ('date', 'datetime', 'time', 'decimal'):
        return z3.Or(is_none(t), is_str(t))
    return z3.Or(fs)

class RoundObs(PObs):
    def tag(self, k):
        if k not in self.report.covered and self.ip.ctx.check() == z3.sat:
            self.report.covered.add(k)

def overflowed(ip, inst):
    if not issubclass(inst.cls, E.ValidationError) or inst.origin is not None:
        return False
    return [ip.norm(ip.getitem(e, 'token')) for e in as_list(ip, inst.attrs['errors'])] == ['overflow']

def within(ip, typ, r):
    """what the property supposes of the accepted value"""
    t = ip.val(ip.norm(ip.force(r)))
    if typ in ('datetime', 'time'):
        ip.ctx.assume(z3.Or(is_none(t), models.WHOLE(rv(t))))
    if typ == 'time':
        ip.ctx.assume(z3.Or(is_none(t), z3.Not(AWARE(rv(t)))))

def equal(ip, typ, a, b):
    a, b = ip.norm(ip.force(a)), ip.norm(ip.force(b))
    f = models.or_same(ip, a, b)
    if typ == 'datetime' and isinstance(a, Sym) and isinstance(b, Sym):
        # the same instant
        t, u = rv(a.t), rv(b.t)
        f = z3.Or(f, z3.And([ip.world.has_class(x, datetime.datetime) for x in (a.t, b.t)] + [AWARE(t), AWARE(u), ORD(t) == ORD(u)]))
    return f

def goal_round(typ):
    def run(ip, obs):
        p, field = make(ip, typ, hooks=())
        ip.world.ref_of(ip, field)
        ip.ctx.assume(is_none(ip.val(p.attrs['constant'])))
        if typ == 'enumeration':
            ip.ctx.assume(is_none(ip.val(p.attrs['ignored_values'])))
        v = Sym(z3.Const('v', Val))
        if not ip.ctx.feasible():
            raise Infeasible()
        ip.events, ip.violations = [], []
        ip.ctx.roundtrip, ip.ctx.rendered = False, []
        run_ = lambda x, phase, ser: attempt(ip, lambda: ip.call(ip.getattr_(field, 'process'), [x, phase, ser], {}))
        r = run_(v, OUTB, False)
        if r.kind != 'return':
            return obs.tag('refused')
        within(ip, typ, r.value)
        ip.ctx.roundtrip = True
        s = run_(v, OUTB, True)
        if s.kind == 'raise' and typ == 'datetime' and overflowed(ip, s.value):
            return obs.tag('overflow')
        obs.check('serialized', s.kind == 'return', '%r' % (s,))
        if s.kind != 'return':
            return
        obs.check('native', natively(ip, typ, s.value), '%r' % (s,))
        x = run_(s.value, INB, True)
        obs.check('read', x.kind == 'return', '%r' % (x,))
        if x.kind != 'return':
            return
        obs.tag('value')
        obs.check('equal', equal(ip, typ, x.value, r.value), '%r / %r' % (x, r))
    return run

# ---------------------------------------------------------------- containers
def suppose(ip, typ, p):
    """the schemas the property speaks about"""
    ctx, w = ip.ctx, ip.world
    if typ == 'sequence':
        ctx.assume(z3.Not(p.attrs['unique'].t))
    if typ == 'map':
        ctx.assume(is_none(ip.val(p.attrs['key'])))
        rk = rv(p.attrs['required_keys'].t)
        ctx.add_univ(z3.IntVal(0), LEN(rk), lambda i: is_str(AT(rk, i)))
    if typ == 'structure':
        u = rv(p.attrs['structure'].t)
        def plain(i):
            c = rv(GET(u, KEYAT(u, i)))
            return z3.And(is_none(app('attr_default', [c], Val)),
                z3.Not(z3.And(app("attr_ignore_null", [c], Val) == VBool(True), app("attr_required", [c], Val) == VBool(True))))
        ctx.add_univ(z3.IntVal(0), LEN(u), plain)

def elements_native(ip, obs, s):
    s = ip.norm(ip.force(s))
    if s is None:
        return obs.check('native', True)
    if not isinstance(s, (LObj, tuple)):
        return obs.check('native', isinstance(s, (DObj, dict)), '%r' % (s,))
    n = models.intterm(ip.length(s)) if isinstance(s, LObj) else z3.IntVal(len(s))
    t = ip.ctx.fresh('t', I)
    ip.ctx.require(z3.And(t >= 0, t < n))
    ip.ctx.add_index(t)
    obs.check('native', app('NATIVE', [ip.val(models.seq_at(ip, s.segs, t))], B), '%r' % (s,))

def goal_container(typ):
    def run(ip, obs):
        ip.ctx.hasuses = True
        p, field = make(ip, typ, hooks=())
        ip.world.ref_of(ip, field)
        suppose(ip, typ, p)
        v = Sym(z3.Const('v', Val))
        if not ip.ctx.feasible():
            raise Infeasible()
        ip.events, ip.violations = [], []
        ip.ctx.roundtrip, ip.ctx.rendered = False, []
        run_ = lambda x, phase, ser: attempt(ip, lambda: ip.call(ip.getattr_(field, 'process'), [x, phase, ser], {}))
        r = run_(v, OUTB, False)
        if r.kind != 'return':
            return obs.tag('refused')
        s = run_(v, OUTB, True)
        obs.check('serialized', s.kind == 'return', '%r' % (s,))
        if s.kind != 'return':
            return
        elements_native(ip, obs, s.value)
        x = run_(s.value, INB, True)
        obs.check('read', x.kind == 'return', '%r' % (x,))
        if x.kind != 'return':
            return
        obs.tag('value')
        def leaf(a, b):
            obs.check('equal', models.or_same(ip, a, b), '%r / %r' % (a, b))
            return True
        obs.leaf = leaf
        obs.same('equal', x.value, r.value)
        obs.leaf = None
    return run

for t in ('sequence', 'tuple', 'map', 'structure'):
    GOALS['roundtrip.' + t] = goal_container(t)
    EXPECT['roundtrip.' + t] = {'refused', 'value'}
    OBSERVERS['roundtrip.' + t] = RoundObs

for t in SCALARS:
    if t != 'field':
        GOALS['roundtrip.' + t] = goal_round(t)
        EXPECT['roundtrip.' + t] = {'refused', 'value'} | ({'overflow'} if t == 'datetime' else set())
        OBSERVERS['roundtrip.' + t] = RoundObs
